"""P36: a served predictor answers what normalisation followed by the trained model answers."""
import itertools

import numpy as np
import reagent.types as rlt
import torch
from reagent.gym.policies import predictor_policies as pp
from reagent.models.actor import FullyConnectedActor, GaussianFullyConnectedActor
from reagent.models.critic import FullyConnectedCritic
from reagent.models.dqn import FullyConnectedDQN
from reagent.models.seq2slate import Seq2SlateTransformerNet
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.parameters import NormalizationParameters, RLParameters
from reagent.prediction import predictor_wrapper as pw
from reagent.prediction.ranking.predictor_wrapper import DeterminantalPointProcessPredictorWrapper
from reagent.preprocessing.postprocessor import Postprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.training.utils import gen_permutations
from vf.contracts.world_model import Planner, best, sel
from vf.runner import contract

P = "reagent/prediction/predictor_wrapper.py:"
F = rlt.FeatureData


class Prep(torch.nn.Module):
    """a preprocessor: any function of the values and presence of a row"""

    def __init__(self, net, n):
        super().__init__()
        self.net, self.sorted_features, self.seen = net, SizedList(n), []

    def forward(self, v, p):
        self.seen.append((v, p))
        return self.net(v, p)


class SizedList:
    def __init__(self, n):
        self.n = n

    def __symlen__(self):
        return self.n

    def __len__(self):
        return self.n


def prep(c, name, width, out):
    return Prep(c.net(name, [out], lo=-3, hi=3, nargs=2), width)


def vp(c, name, lead, w):
    return c.rows(name + " values", lead, w), c.rows(name + " presence", lead, w)


def serve(v):
    return rlt.ServingFeatureData(float_features_with_presence=v, id_list_features={}, id_score_list_features={})


@contract("P36", "value predictors", under=[P + "DiscreteDqnWithPreprocessor.forward", P + "ParametricDqnWithPreprocessor.forward", P + "CompressModelWithPreprocessor.forward", P + "serving_to_feature_data"])
def values(c):
    B, A, W, D, V, G = c.dim("B"), c.dim("A"), c.dim("W"), c.dim("D"), c.dim("V"), c.dim("G")
    v = vp(c, "state", [B], W)
    pre = prep(c, "pre", W, D)
    q = c.net("q", [A], lo=-5, hi=5)
    cfg = rlt.ModelFeatureConfig()
    state = pre.net(*v)
    for name, cls in (("discrete", pw.DiscreteDqnWithPreprocessor), ("compressed", pw.CompressModelWithPreprocessor)):
        m = cls(q, pre, cfg)
        out = c.call(name, m, serve(v))
        c.eqt(f"{name}: the model's value of the normalised state", out, [B, A], lambda b, a: c.netval("q", [(state, b)], a))
    av = vp(c, "action", [B], V)
    apre = prep(c, "apre", V, G)
    q2 = c.net("q2", [1], lo=-5, hi=5, nargs=2)
    m = c.call("construct", pw.ParametricDqnWithPreprocessor, q2, pre, apre)
    out = c.call("parametric", m, v, av)
    action = apre.net(*av)
    c.eqt("parametric: the model's value of the normalised state and action", out, [B, 1], lambda b, j: c.netval("q2", [(state, b), (action, b)], j))


@contract("P36", "actor predictors", under=[P + "ActorWithPreprocessor.forward", "reagent/preprocessing/postprocessor.py:Postprocessor.forward"])
def actors(c):
    B, A, W, D = c.dim("B"), c.dim("A"), c.dim("W"), c.dim("D")
    mean, post = c.choice("serve", ["sample", "mean"]), c.choice("post", [False, True])
    v = vp(c, "state", [B], W)
    pre = prep(c, "pre", W, D)
    act, mu = c.net("act", [A], lo=-1, hi=1), c.net("mu", [A], lo=-1, hi=1)

    class Actor(torch.nn.Module):
        def forward(self, s):
            return rlt.ActorOutput(action=act(s), log_prob=None, squashed_mean=mu(s))
    aft = c.net("aft", [A], lo=-9, hi=9) if post else None
    m = c.call("construct", pw.ActorWithPreprocessor, Actor(), pre, aft, mean == "mean")
    out = c.call("act", m, v)
    state = pre.net(*v)
    src = act if mean == "sample" else mu
    nm = "act" if mean == "sample" else "mu"
    if post:
        raw = src(F(state))
        c.eqt("the actor's action, rescaled", out, [B, A], lambda b, a: c.netval("aft", [(raw, b)], a))
    else:
        c.eqt("the actor's action", out, [B, A], lambda b, a: c.netval(nm, [(state, b)], a))


@contract("P36", "planning predictors", under=[P + "Seq2RewardWithPreprocessor.forward", P + "Seq2RewardPlanShortSeqWithPreprocessor.forward", "reagent/training/world_model/seq2reward_trainer.py:get_Q"], split=[("plan", 3)], bound="2 or 3 actions, plans of 1 or 2 steps (any number of rows, any rewards)")
def planning(c):
    B, W, D = c.dim("B"), c.dim("W"), c.dim("D")
    T, A = c.choice("plan", [(1, 2), (2, 2), (2, 3)])
    nosparse = [(pw.make_sparse_preprocessor, lambda *a, **k: None)]  # compiled, and not used by planning
    w = [[c.real(f"w{t}{k}", -4, 4) for k in range(A)] for t in range(T)]
    net = Planner(c.net("v", [1], lo=-4, hi=4), w)
    v = vp(c, "state", [B], W)
    pre = prep(c, "pre", W, D)
    state = pre.net(*v)
    m = c.call("construct", pw.Seq2RewardWithPreprocessor, net, pre, T, A, stub=nosparse)
    plan = lambda b, t: [best(c, c.netval("v", [(state, b)], 0), w, t, A, j) for j in range(A)]
    c.eqt("best plan starting with each action", c.call("plan", m, serve(v)), [B, A], lambda b, a: sel(c, a, plan(b, T)))
    step = c.net("len", [T], lo=-3, hi=3)
    m = c.call("construct", pw.Seq2RewardPlanShortSeqWithPreprocessor, net, step, pre, T, A, stub=nosparse)
    z = lambda b, t: c.fn("exp", c.netval("len", [(state, b)], t))
    out = c.call("plan over several lengths", m, serve(v))
    c.eqt("plans of every length, weighted by its predicted probability", out, [B, A],
          lambda b, a: sum(sel(c, a, plan(b, t + 1)) * c.div(z(b, t), sum(z(b, u) for u in range(T))) for t in range(T)))


@contract("P36", "ranking predictors", under=[P + "SlateRankingPreprocessor.forward", P + "LearnVMSlateWithPreprocessor.forward", P + "RankingActorWithPreprocessor.forward"], split=[("candidates", 3)], bound="1 to 3 candidates (any number of rows and features)")
def ranking(c):
    B, W, D, V, G = c.dim("B"), c.dim("W"), c.dim("D"), c.dim("V"), c.choice("features", [2])
    N = c.choice("candidates", [1, 2, 3])
    v = vp(c, "state", [B], W)
    pre, cpre = prep(c, "pre", W, D), prep(c, "cpre", V, G)
    cv = vp(c, "candidate", [B, N], V)
    m = c.call("construct", pw.SlateRankingPreprocessor, pre, cpre)
    st, docs = c.call("preprocess", m, v, cv)
    state = pre.net(*v)
    c.eqt("state", st, [B, D], lambda b, j: c.at(state, b, j))
    want = cpre.net(*cv)
    c.eqt("candidates stay with their row and place", docs, [B, N, G], lambda b, n, j: c.at(want, b, n, j))
    sc = c.tensor("scores", [B, N])
    got = []

    class Mlp(torch.nn.Module):
        def forward(self, s):
            got.append(s)
            return sc.unsqueeze(2)
    m = c.call("construct", pw.LearnVMSlateWithPreprocessor, Mlp(), pre, cpre)
    out = c.call("score", m, v, cv)
    c.eqt("scores", out, [B, N], lambda b, n: c.at(sc, b, n))
    c.eqt("scored from the normalised state", got[0].float_features, [B, D], lambda b, j: c.at(state, b, j))
    c.eqt("scored from the normalised candidates", got[0].candidate_docs.float_features, [B, N, G], lambda b, n, j: c.at(want, b, n, j))
    K = c.dim("K")
    a = c.tensor("action", [B, K])
    seen = []

    class Actor(torch.nn.Module):
        def forward(self, s):
            seen.append(s)
            return rlt.ActorOutput(action=a)
    m = c.call("construct", pw.RankingActorWithPreprocessor, Actor(), pre, cpre, N)
    out = c.call("act", m, v, [(cv[0][:, n], cv[1][:, n]) for n in range(N)])
    c.eqt("action", out, [B, K], lambda b, k: c.at(a, b, k))
    x = seen[0].float_features
    c.eqshape("acting on the state and every candidate", x, [B, D + N * G])
    c.forall("the normalised state first", [B, D], lambda b, j: c.eq(c.at(x, b, j), c.at(state, b, j)))
    for n in range(N):
        for g in range(G):
            c.forall("then every normalised candidate in order", [B], lambda b: c.eq(c.at(x, b, D + n * G + g), c.at(want, b, n, g)))


def numbers(c, rows, n, lo=-6, hi=6):
    g = torch.Generator().manual_seed(int(c.int("seed", 0, 10 ** 6)))
    r = lambda *s: (lo + (hi - lo) * torch.rand(*s, generator=g))
    return g, r


def norms(c, ids, kinds):
    out = {}
    for k, i in enumerate(ids):
        kind = kinds[k % len(kinds)]
        if kind == "CONTINUOUS":
            out[i] = NormalizationParameters(feature_type=kind, mean=0.5 * k - 1, stddev=1.0 + k, min_value=-3.0, max_value=4.0)
        elif kind == "BINARY":
            out[i] = NormalizationParameters(feature_type=kind, mean=0, stddev=1, min_value=0, max_value=1)
        elif kind == "ENUM":
            out[i] = NormalizationParameters(feature_type=kind, possible_values=[0, 1, 2])
        else:
            out[i] = NormalizationParameters(feature_type=kind, min_value=-2.0 - k, max_value=1.0 + k)
    return out


def close(a, b, tol=1e-5):
    return tuple(a.shape) == tuple(b.shape) and torch.allclose(a.float(), b.float(), atol=tol)


@contract("P36", "traced predictors answer for any batch", under=[P + x for x in ("DiscreteDqnPredictorWrapper.forward", "ParametricDqnPredictorWrapper.forward", "ActorPredictorWrapper.forward", "sparse_input_prototype", "OSSSparsePredictorUnwrapper.forward", "OSSPredictorUnwrapper.forward")],
          bounded=True, quick=30, bound="random models of up to 4 features of 4 kinds, 1 to 6 rows")
def traced(c):
    n, A, B = c.dim("features", 1, 4), c.choice("actions", [1, 2, 3]), c.dim("B", 1, 6)
    torch.manual_seed(int(c.int("net seed", 0, 10 ** 6)))
    kinds = c.choice("kinds", [["CONTINUOUS"], ["BINARY", "CONTINUOUS"], ["ENUM", "CONTINUOUS"]])
    g, r = numbers(c, B, n)
    sn = norms(c, range(1, n + 1), kinds)
    pre = Preprocessor(sn, False)
    D = pre.input_prototype()[0].shape[1] and pre(*pre.input_prototype()).shape[1]
    v = r(B, n)
    for k, f in enumerate(pre.sorted_features):
        if sn[f].feature_type == "ENUM":
            v[:, k] = torch.randint(0, 3, (B,), generator=g).float()
        elif sn[f].feature_type == "BINARY":
            v[:, k] = torch.randint(0, 2, (B,), generator=g).float()
    p = torch.rand(B, n, generator=g) < 0.7
    dense = (v, p)
    cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(feature_id=i, name=f"f{i}") for i in sn])
    dqn = FullyConnectedDQN(D, A, sizes=[5], activations=["relu"])
    names = [f"action{a}" for a in range(A)]
    m = c.call("discrete", lambda: pw.DiscreteDqnPredictorWrapper(pw.DiscreteDqnWithPreprocessor(dqn, pre, cfg), names, cfg))
    want = dqn(F(pre(*dense)))
    got = c.call("discrete", m, serve(dense))
    c.check("names of the actions in order", list(got[0]) == names)
    c.check("values of the actions", close(got[1], want))
    got2 = c.call("unwrapped", pw.DiscreteDqnPredictorUnwrapper(m), dense, {}, {})
    c.check("unwrapped predictors pass the input on", list(got2[0]) == names and close(got2[1], want))
    for b in range(B):
        c.check("rows do not influence each other", close(m(serve((v[b:b + 1], p[b:b + 1])))[1], want[b:b + 1]))
    other = v.clone()
    other[~p] = other[~p] + 1.0
    c.check("values marked absent are not looked at", close(m(serve((other, p)))[1], want))
    an = norms(c, range(11, 13), ["CONTINUOUS"])
    apre = Preprocessor(an, False)
    av = (r(B, 2), torch.rand(B, 2, generator=g) < 0.8)
    q = FullyConnectedCritic(D, 2, sizes=[4], activations=["relu"])
    m = c.call("parametric", lambda: pw.ParametricDqnPredictorWrapper(pw.ParametricDqnWithPreprocessor(q, pre, apre)))
    got = c.call("parametric", pw.ParametricDqnPredictorUnwrapper(m), dense, av)
    c.check("one value, named Q", list(got[0]) == ["Q"] and close(got[1], q(F(pre(*dense)), F(apre(*av)))))
    actor = FullyConnectedActor(D, 2, sizes=[4], activations=["tanh"])
    ids = [21, 22] if c.choice("order", [0, 1]) else [22, 21]
    out = {i: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=-1.0 * i, max_value=2.0 * i) for i in ids}
    post = Postprocessor(out, False)
    m = c.call("actor", lambda: pw.ActorPredictorWrapper(pw.ActorWithPreprocessor(actor, pre, post)))
    a = c.call("act", m, dense)
    raw = actor(F(pre(*dense))).action
    lo, hi = torch.tensor([-21.0, -22.0]), torch.tensor([42.0, 44.0])
    c.check("actions in the serving range of each action dimension", close(a, lo + (raw + 1 - 1e-6) / (2 * (1 - 1e-6)) * (hi - lo), 1e-3))
    gau = GaussianFullyConnectedActor(D, 2, sizes=[4], activations=["relu"])
    m = c.call("actor", lambda: pw.ActorPredictorWrapper(pw.ActorWithPreprocessor(gau, pre, post, serve_mean_policy=True)))
    mean = post(gau(F(pre(*dense))).squashed_mean)
    c.check("serving the mean policy is the same every time", close(m(dense), mean, 1e-4) and close(m(dense), mean, 1e-4))


@contract("P36", "slate predictors", under=[P + x for x in ("Seq2SlateWithPreprocessor.forward", "Seq2SlatePredictorWrapper.forward", "RankingActorPredictorWrapper.forward")], bounded=True, quick=16, bound="random networks, up to 4 candidates and 3 rows")
def slates(c):
    B, N, D, G = c.dim("B", 1, 3), c.dim("N", 1, 4), 2, 2
    torch.manual_seed(int(c.int("net seed", 0, 10 ** 6)))
    g, r = numbers(c, B, D)
    pre, cpre = Preprocessor(norms(c, [1, 2], ["CONTINUOUS"]), False), Preprocessor(norms(c, [3, 4], ["CONTINUOUS"]), False)
    greedy = c.choice("greedy", [True, True, False])
    arch = c.choice("output", [Seq2SlateOutputArch.AUTOREGRESSIVE, Seq2SlateOutputArch.ENCODER_SCORE])
    net = Seq2SlateTransformerNet(state_dim=D, candidate_dim=G, num_stacked_layers=1, num_heads=2, dim_model=8, dim_feedforward=8, max_src_seq_len=N, max_tgt_seq_len=N, output_arch=arch, temperature=1.0)
    net.eval()
    m = c.call("construct", lambda: pw.Seq2SlatePredictorWrapper(pw.Seq2SlateWithPreprocessor(net, pre, cpre, greedy)))
    st = (r(B, D), torch.rand(B, D, generator=g) < 0.8)
    cv = (r(B, N, G), torch.rand(B, N, G, generator=g) < 0.8)
    prob, idx = c.call("rank", m, st, cv)
    c.check("a ranking of all candidates per row", tuple(idx.shape) == (B, N) and all(sorted(x) == list(range(N)) for x in idx.tolist()))
    docs = torch.stack([cpre(cv[0][:, n], cv[1][:, n]) for n in range(N)], 1)
    ri = rlt.PreprocessedRankingInput.from_tensors(state=pre(*st), src_seq=docs)
    if greedy:
        res = net(ri, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=N, greedy=True)
        c.check("the ranking of the normalised candidates", torch.equal(idx, res.ranked_tgt_out_idx - 2))
        c.check("and its probability", close(prob, res.ranked_per_seq_probs))
    A = 2

    class Actor(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.l = torch.nn.Linear(D + N * G, A)

        def forward(self, s):
            return rlt.ActorOutput(action=torch.tanh(self.l(s.float_features)))
    actor = Actor()
    post = Postprocessor({i: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=-1.0 * i, max_value=2.0 * i) for i in (5, 6)}, False)
    m = c.call("construct", lambda: pw.RankingActorPredictorWrapper(pw.RankingActorWithPreprocessor(actor, pre, cpre, N, post), [5, 6]))
    got = c.call("act", m, st, [(cv[0][:, n], cv[1][:, n]) for n in range(N)])
    c.check("the actor's action on state and candidates", close(got, post(torch.tanh(actor.l(torch.cat([pre(*st), docs.reshape(B, -1)], 1)))), 1e-4))


@contract("P36", "diverse slates", under=["reagent/prediction/ranking/predictor_wrapper.py:DeterminantalPointProcessPredictorWrapper.forward"], bounded=True, quick=60, bound="up to 5 items of up to 4 features")
def diverse(c):
    n, d = c.dim("items", 1, 5), c.dim("features", 1, 4)
    alpha = c.choice("alpha", [0.1, 0.5, 1.0])
    g, r = numbers(c, n, d)
    q, f = torch.rand(n, 1, generator=g) * 3 + 0.1, r(n, d)
    if c.bool("similar items") and n > 1:
        f[1] = f[0] * 2
    m = c.call("construct", DeterminantalPointProcessPredictorWrapper, alpha)
    chosen, dets, L, B = c.call("rank", m, q, f)
    u = f / f.norm(dim=1, keepdim=True)
    want = alpha * (q @ q.T) * (u @ u.T)
    want[range(n), range(n)] = (q ** 2).flatten()
    c.check("kernel: qualities times similarity, damped off the diagonal", close(L, want, 1e-3))
    c.check("every item once", sorted(chosen.tolist()) == list(range(n)))
    for i in range(n):
        done = chosen[:i].tolist()
        d_ = {j: float(torch.det(L[done + [j]][:, done + [j]])) for j in range(n) if j not in done}
        tol = 1e-3 * max(1.0, max(abs(x) for x in d_.values()))
        c.check("each item has the greatest determinant with those before it", d_[int(chosen[i])] >= max(d_.values()) - tol)
        c.check("the determinants are reported", all(abs(float(dets[i, j]) - d_[j]) <= tol for j in d_) and all(float(dets[i, j]) < -1e38 for j in done))


@contract("P36", "policies of served predictors", under=["reagent/gym/policies/predictor_policies.py:" + x for x in ("create_predictor_policy_from_model", "DiscreteDQNPredictorPolicy.act", "ActorPredictorPolicy.act")] + ["reagent/gym/policies/scorers/discrete_scorer.py:discrete_dqn_serving_scorer", "reagent/gym/policies/scorers/discrete_scorer.py:parametric_dqn_serving_scorer", "reagent/gym/policies/scorers/slate_q_scorer.py:slate_q_serving_scorer"],
          bounded=True, quick=24, bound="random models of up to 3 features, up to 4 rows and actions")
def policies(c):
    n, A, B = c.dim("features", 1, 3), c.choice("actions", [1, 2, 4]), c.dim("B", 1, 4)
    torch.manual_seed(int(c.int("net seed", 0, 10 ** 6)))
    g, r = numbers(c, B, n)
    pre = Preprocessor(norms(c, range(1, n + 1), ["CONTINUOUS"]), False)
    dense = (r(B, n), torch.rand(B, n, generator=g) < 0.8)
    cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(feature_id=i, name=f"f{i}") for i in range(1, n + 1)])
    dqn = FullyConnectedDQN(n, A, sizes=[5], activations=["relu"])
    m = pw.DiscreteDqnPredictorWrapper(pw.DiscreteDqnWithPreprocessor(dqn, pre, cfg), [f"a{a}" for a in range(A)], cfg)
    q = dqn(F(pre(*dense))).detach()
    pol = c.call("policy", pp.create_predictor_policy_from_model, m)
    for obs in (dense, serve(dense)):
        out = c.call("act", pol.act, obs, None)
        c.check("the action of greatest value, in every row", close(out.action, torch.nn.functional.one_hot(q.argmax(1), A)))
    mask = np.zeros(A, dtype=np.float32)
    mask[int(c.int("allowed", 0, 3)) % A] = 1
    out = c.call("act with a mask", pol.act, (dense[0][:1], dense[1][:1]), mask)
    c.check("only possible actions", close(out.action, torch.tensor(mask).reshape(1, A)))
    soft = c.call("policy", pp.create_predictor_policy_from_model, m, rl_parameters=RLParameters(softmax_policy=True, temperature=0.5))
    a = c.call("act", soft.act, dense, None)
    lp = torch.log_softmax(q / 0.5, 1)
    c.check("softmax policies draw with the temperature", close(a.log_prob, (lp * a.action).sum(1)))
    qn = FullyConnectedCritic(n, A, sizes=[4], activations=["relu"])
    ident = Preprocessor({100 + i: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for i in range(A)}, False)
    m = pw.ParametricDqnPredictorWrapper(pw.ParametricDqnWithPreprocessor(qn, pre, ident))
    pol = c.call("policy", pp.create_predictor_policy_from_model, m, max_num_actions=A)
    out = c.call("act", pol.act, dense)
    full = pre(dense[0], torch.ones(B, n).bool())
    qs = torch.stack([qn(F(full), F(torch.eye(A)[a].repeat(B, 1))).flatten() for a in range(A)], 1).detach()
    c.check("parametric: the action of greatest value", close(out.action, torch.nn.functional.one_hot(qs.argmax(1), A)))
    actor = FullyConnectedActor(n, 2, sizes=[4], activations=["tanh"])
    m = pw.ActorPredictorWrapper(pw.ActorWithPreprocessor(actor, pre))
    pol = c.call("policy", pp.create_predictor_policy_from_model, m)
    c.check("actors act as they are", close(c.call("act", pol.act, dense).action, actor(F(pre(*dense))).action))
    K = int(c.int("slate", 1, A))
    item = FullyConnectedCritic(n, 2, sizes=[4], activations=["relu"])
    ipre = Preprocessor({100 + i: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for i in range(2)}, False)
    m = pw.ParametricDqnPredictorWrapper(pw.ParametricDqnWithPreprocessor(item, pre, ipre))
    docs = rlt.DocList(float_features=r(B, A, 2), mask=torch.ones(B, A), value=r(B, A) / 6)
    pol = c.call("policy", pp.create_predictor_policy_from_model, m, max_num_actions=A, slate_size=K)
    out = c.call("act on a slate", pol.act, F(float_features=dense[0], candidate_docs=docs))
    v = torch.stack([item(F(full), F(docs.float_features[:, k])).flatten() for k in range(A)], 1).detach() * torch.softmax(docs.value, 1)
    c.check("slate: the items of greatest value times choice probability, best first", torch.equal(out.action, torch.topk(v, K, dim=1).indices))
