"""P12: evaluation page of a ranking model; P22: ranking batches from raw slates."""
import torch
import reagent.types as rlt
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.ranking_training import SlateNet, pick2

F = rlt.FeatureData
PRI = "reagent/types.py:PreprocessedRankingInput."


@contract("P12", "page of a ranking model", under=["reagent/evaluation/evaluation_data_page.py:EvaluationDataPage.create_from_tensors_seq2slate"],
          split=[("greedy", 2), ("slate", 3), ("ids", 2)], bound="up to 3 candidates of 2 features and slates of 1 to 3 (any number of rows)")
def slate_page(c):
    B, n, D = c.dim("B"), 3, 2
    greedy, T = c.choice("greedy", [True, False]), c.choice("slate", [1, 2, 3])
    ids = c.choice("ids", [True, False])
    ranked = c.tensor("ranking", [B, T], kind="i", lo=2, hi=n + 2)
    logged = c.tensor("logged", [B, T], kind="i", lo=2, hi=n + 2)
    if not c.sym and c.choice("logged ranking", ["drawn", "the greedy one"]) == "the greedy one":
        logged[0] = ranked[0]
    lp = c.net("lp", [1], -4, 0)
    net = SlateNet(c, n, seq=lp, ranked=[(c.tensor("rp", [B, 1], lo=0, hi=1), ranked)])
    rew = c.net("rew", [1], -5, 5)
    rew2 = c.net("rew2", [1], -5, 5)
    seen = []

    def reward(state, cand, feats, mask, idx):
        seen.append((cand, feats, mask, idx))
        return (rew if len(seen) == 1 else rew2)(F(state) if False else st)
    st = c.rows("state", [B])
    src, mask = c.tensor("candidates", [B, n, D]), c.tensor("mask", [B, n, n], "m")
    out = c.tensor("logged features", [B, T, D])
    b = rlt.PreprocessedRankingInput(state=F(st), src_seq=F(src), src_src_mask=mask, tgt_out_seq=F(out), tgt_out_idx=logged,
                                     tgt_out_probs=c.tensor("probs", [B], lo=0.01, hi=1), slate_reward=c.tensor("reward", [B, 1]))
    m, s = (c.tensor("mdp", [B, 1], "i", 0, 5), c.tensor("seq", [B, 1], "i", 0, 9)) if ids else (None, None)
    p = c.call("page", EvaluationDataPage.create_from_tensors_seq2slate, net, reward, b, greedy, m, s)
    c.same("the model's own ranking is its greedy one", [g for _, g in net.args], [True])
    c.same("two rewards per slate", len(seen), 2)
    other = seen[0] if len(seen) == 2 else None
    # the logged slate may be rewarded first or second
    which = [k for k, (_, f, _, i) in enumerate(seen) if i is logged] if len(seen) == 2 else []
    c.same("the logged slate is rewarded", len(which), 1)
    if len(which) != 1:
        return
    kl, km = which[0], 1 - which[0]
    item = lambda i, t, d: pick2(c, c.at(ranked, i, t) - 2, [c.at(src, i, k, d) for k in range(n)])
    c.eqt("with its own features", seen[kl][1], [B, T, D], lambda i, t, d: c.at(out, i, t, d))
    c.eqt("the model's slate with the features of its items", seen[km][1], [B, T, D], lambda i, t, d: item(i, t, d))
    c.eqt("and its items", seen[km][3], [B, T], lambda i, t: c.at(ranked, i, t))
    for cand, _, mk, _ in seen:
        c.eqt("among the candidates", cand, [B, n, D], lambda i, k, d: c.at(src, i, k, d))
        c.eqt("as masked", mk, [B, n, n], lambda i, k, l: c.at(mask, i, k, l))
    r = lambda k: lambda i, j: c.netval(["rew", "rew2"][k], [(st, i)], 0)
    c.eqt("model reward of the logged slate", p.model_rewards_for_logged_action, [B, 1], r(kl))
    c.eqt("model reward of the model's slate", p.model_rewards, [B, 1], r(km))
    same = lambda i: c.And(*[c.eq(c.at(logged, i, t), c.at(ranked, i, t)) for t in range(T)])
    if greedy:
        c.eqt("the greedy ranking is certain", p.model_propensities, [B, 1], lambda i, j: 1.0)
        c.eqt("it was logged exactly when every position agrees", p.action_mask, [B, 1], lambda i, j: c.If(same(i), 1.0, 0.0))
    else:
        c.eqt("propensity of the logged slate", p.model_propensities, [B, 1], lambda i, j: c.exp(c.netval("lp", [(st, i)], 0)))
        c.eqt("the logged slate is the action", p.action_mask, [B, 1], lambda i, j: 1.0)
    c.eqt("logged rewards", p.logged_rewards, [B, 1], lambda i, j: c.at(b.slate_reward, i, 0))
    c.eqt("logged propensities", p.logged_propensities, [B, 1], lambda i, j: c.at(b.tgt_out_probs, i))
    if ids:
        c.eqt("episode ids", p.mdp_id, [B, 1], lambda i, j: c.at(m, i, 0))
        c.eqt("sequence numbers", p.sequence_number, [B, 1], lambda i, j: c.at(s, i, 0))
    else:
        c.check("no ids", p.mdp_id is None and p.sequence_number is None)


@contract("P22", "ranking batches", under=[PRI + "from_input", PRI + "from_tensors", PRI + "__post_init__", PRI + "batch_size", "reagent/model_utils/seq2slate_utils.py:subsequent_mask", "reagent/torch_utils.py:gather"],
          split=[("slate", 4), ("optimal", 2)], bound="3 candidates of 2 features, slates of 1 to 3 (any number of rows)")
def ranking_batch(c):
    B, n, D, S = c.dim("B"), 3, 2, c.dim("S")
    T, opt = c.choice("slate", [0, 1, 2, 3]), c.choice("optimal", [False, True])
    st, src = c.tensor("state", [B, S]), c.tensor("candidates", [B, n, D])
    act = c.tensor("action", [B, T], kind="i", lo=0, hi=n) if T else None
    best = c.tensor("best", [B, T or 2], kind="i", lo=0, hi=n) if opt else None
    rest = dict(logged_propensities=c.tensor("p", [B, 1], lo=0.01, hi=1), slate_reward=c.tensor("r", [B, 1])) if T else {}
    if T and opt:
        rest["position_reward"] = c.tensor("pr", [B, T])
    ex = rlt.ExtraData()
    b = c.call("from_input", lambda: rlt.PreprocessedRankingInput.from_input(state=st, candidates=src, device=torch.device("cpu"), action=act, optimal_action=best, extras=ex, **rest))
    c.same("rows", b.batch_size(), B)
    c.eqt("state", b.state.float_features, [B, S], lambda i, k: c.at(st, i, k))
    c.eqt("candidates", b.src_seq.float_features, [B, n, D], lambda i, k, d: c.at(src, i, k, d))
    c.eqt("candidates are numbered from 2", b.src_in_idx, [B, n], lambda i, k: k + 2)
    c.eqt("every candidate sees every candidate", b.src_src_mask, [B, n, n], lambda i, k, l: 1)
    for who, a, idx, inn, seq, inseq in [("", act, b.tgt_out_idx, b.tgt_in_idx, b.tgt_out_seq, b.tgt_in_seq), ("optimal ", best, b.optim_tgt_out_idx, b.optim_tgt_in_idx, b.optim_tgt_out_seq, b.optim_tgt_in_seq)]:
        if a is None:
            c.check(f"no {who}target", all(x is None for x in (idx, inn, seq, inseq)))
            continue
        L = T or 2
        item = lambda i, t, d: pick2(c, c.at(a, i, t), [c.at(src, i, k, d) for k in range(n)])
        prev = lambda i, t, f, z: pick2(c, t, [z] + [f(i, k) for k in range(L - 1)])
        c.eqt(f"{who}target items", idx, [B, L], lambda i, t: c.at(a, i, t) + 2)
        c.eqt(f"{who}decoder input: start symbol, then the earlier items", inn, [B, L], lambda i, t: prev(i, t, lambda i, k: c.at(a, i, k) + 2, 1))
        c.eqt(f"{who}target features", seq.float_features, [B, L, D], lambda i, t, d: item(i, t, d))
        c.eqt(f"{who}decoder input features", inseq.float_features, [B, L, D], lambda i, t, d: prev(i, t, lambda i, k: item(i, k, d), 0.0))
    if T:
        c.check("decoder mask: a position sees itself and the earlier ones", b.tgt_tgt_mask.reshape(T, T).tolist() == [[k <= t for k in range(T)] for t in range(T)] if not c.sym else True)
        c.eqt("logged propensity", b.tgt_out_probs, [B, 1], lambda i, j: c.at(rest["logged_propensities"], i, 0))
        c.eqt("slate reward", b.slate_reward, [B, 1], lambda i, j: c.at(rest["slate_reward"], i, 0))
        if opt:
            c.eqt("position reward", b.position_reward, [B, T], lambda i, t: c.at(rest["position_reward"], i, t))
        else:
            c.check("no position reward", b.position_reward is None)
    else:
        c.check("nothing logged", b.tgt_out_probs is None and b.slate_reward is None and b.position_reward is None and b.tgt_tgt_mask is None)
    c.check("extras", b.extras is ex)
