"""P38: value networks compute their architecture's function of each row."""
import copy
import math
from types import SimpleNamespace

import numpy as np
import reagent.types as rlt
import torch
from reagent.models import bcq, critic, dqn, dueling_q_network as dq, embedding_bag_concat as eb, fully_connected_network as fcn, mlp_scorer
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.models.containers import Sequential
from reagent.models.no_soft_update_embedding import NoSoftUpdateEmbedding
from vf.contracts._common import *
from vf.runner import contract

M = "reagent/models/"
F = rlt.FeatureData


def frows(c, name, lead, w):
    return F(float_features=c.rows(name, lead, w))


@contract("P38", "dueling values", under=[M + "dueling_q_network.py:DuelingQNetwork._get_values", M + "dueling_q_network.py:DuelingQNetwork.forward"])
def dueling(c):
    B, A, W, D = c.dim("B"), c.dim("A"), c.dim("W"), c.dim("D")
    atoms = c.choice("atoms", [False, True])
    N = [c.dim("N")] if atoms else []
    sh, adv, val = c.net("shared", [D], lo=-3, hi=3), c.net("adv", [A] + N, lo=-5, hi=5), c.net("val", [1] + N, lo=-5, hi=5)
    sh.input_prototype = lambda: F(torch.zeros(1, 1))
    m = c.call("construct", dq.DuelingQNetwork, shared_network=sh, advantage_network=adv, value_network=val, inject={"_check_connection": lambda m: None})
    s = frows(c, "state", [B], W)
    out = c.call("forward", m, s, inject={"SummaryWriterContext": SimpleNamespace(_global_step=1)})
    emb = F(sh(s))
    a_ = lambda b, *k: c.netval("adv", [(emb, b)], k)
    if atoms:
        mean = lambda b: c.div(c.Sum(A, lambda a: c.Sum(N[0], lambda n: a_(b, a, n))), A * N[0])
        c.eqt("value plus centred advantage of the row", out, [B, A, N[0]], lambda b, a, n: c.netval("val", [(emb, b)], (0, n)) + a_(b, a, n) - mean(b))
    else:
        mean = lambda b: c.div(c.Sum(A, lambda a: a_(b, a)), A)
        c.eqt("value plus centred advantage of the row", out, [B, A], lambda b, a: c.netval("val", [(emb, b)], 0) + a_(b, a) - mean(b))


@contract("P38", "parametric dueling values", under=[M + "dueling_q_network.py:ParametricDuelingQNetwork._get_values", M + "dueling_q_network.py:ParametricDuelingQNetwork.forward"])
def parametric(c):
    B, G, W, D = c.dim("B"), c.dim("G"), c.dim("W"), c.dim("D")
    sh, adv, val = c.net("shared", [D], lo=-3, hi=3), c.net("adv", [1], lo=-5, hi=5, nargs=2), c.net("val", [1], lo=-5, hi=5)
    adv.input_prototype = lambda: (F(torch.zeros(1, 1)), F(torch.zeros(1, 1)))
    m = c.call("construct", dq.ParametricDuelingQNetwork, shared_network=sh, advantage_network=adv, value_network=val, inject={"_check_connection": lambda m: None})
    s, a = frows(c, "state", [B], W), frows(c, "action", [B], G)
    out = c.call("forward", m, s, a, inject={"SummaryWriterContext": SimpleNamespace(_global_step=1)})
    emb = F(sh(s))
    c.eqt("value plus advantage of the action", out, [B, 1], lambda b, j: c.netval("val", [(emb, b)], j) + c.netval("adv", [(emb, b), (a, b)], j))


@contract("P38", "discrete values and their mask", under=[M + "dqn.py:FullyConnectedDQN.forward", M + "critic.py:FullyConnectedCritic.forward"])
def plain(c):
    B, A, W, G = c.dim("B"), c.dim("A"), c.dim("W"), c.dim("G")
    masked = c.choice("masked", [False, True])
    m = dqn.FullyConnectedDQN(2, 2, [3], ["relu"])
    m.fc = c.net("fc", [A], lo=-5, hi=5)
    x = c.rows("state", [B], W)
    mask = c.tensor("mask", [B, A], "m") if masked else None
    out = c.call("forward", m, F(float_features=x), mask)
    v = lambda b, a: c.netval("fc", [(x, b)], a)
    c.eqshape("one value per row and action", out, [B, A])
    ok = (lambda b, a: c.eq(c.at(mask, b, a), 1)) if masked else (lambda b, a: True)
    c.forall("the network's value where the action is possible", [B, A], lambda b, a: c.Or(c.Not(ok(b, a)), c.eq(c.at(out, b, a), v(b, a))))
    if masked:
        c.forall("far below every value where it is not", [B, A], lambda b, a: c.Or(ok(b, a), c.at(out, b, a) < -1e6))
    cr = critic.FullyConnectedCritic(2, 2, [3], ["relu"])
    seen = []

    class Net(torch.nn.Module):
        def forward(self, t):
            seen.append(t)
            return t
    cr.fc = Net()
    s, a = c.tensor("s", [B, W]), c.tensor("a", [B, G])
    c.call("critic", cr, F(float_features=s), F(float_features=a))
    c.eqshape("the critic reads state then action of the row", seen[0], [B, W + G])
    c.forall("the row's state first", [B, W], lambda b, j: c.eq(c.at(seen[0], b, j), c.at(s, b, j)))
    c.forall("then its action", [B, G], lambda b, j: c.eq(c.at(seen[0], b, W + j), c.at(a, b, j)))


@contract("P38", "categorical values", under=[M + "categorical_dqn.py:CategoricalDQN.forward", M + "categorical_dqn.py:CategoricalDQN.log_dist"], bound="3 atoms")
def categorical(c):
    B, A, W = c.dim("B"), c.dim("A"), c.dim("W")
    N, lo, hi = 3, c.choice("qmin", [-1.0, 0.0]), c.choice("qmax", [1.0, 4.0])
    d = c.net("dist", [A, N], lo=-3, hi=3)
    m = c.call("construct", CategoricalDQN, d, qmin=lo, qmax=hi, num_atoms=N)
    s = frows(c, "state", [B], W)
    e = lambda b, a, n: c.fn("exp", c.netval("dist", [(s, b)], (a, n)))
    z = lambda b, a: sum(e(b, a, n) for n in range(N))
    at = [lo, (lo + hi) / 2, hi]
    out = c.call("forward", m, s)
    c.eqt("expectation of the support under the softmax of the logits", out, [B, A], lambda b, a: c.div(sum(e(b, a, n) * at[n] for n in range(N)), z(b, a)))
    lg = c.call("log", m.log_dist, s)
    c.eqt("log-probabilities of the atoms", lg, [B, A, N], lambda b, a, n: c.netval("dist", [(s, b)], (a, n)) - c.fn("log", z(b, a)))


@contract("P38", "fully connected layers", under=[M + "fully_connected_network.py:FullyConnectedNetwork.__init__", M + "fully_connected_network.py:FullyConnectedNetwork.forward", M + "dqn.py:FullyConnectedDQN.forward", M + "dueling_q_network.py:DuelingQNetwork.make_fully_connected", M + "dueling_q_network.py:ParametricDuelingQNetwork.make_fully_connected"], bounded=True, quick=60, bound="up to 3 layers of up to 5 units, up to 4 rows")
def layers(c):
    n, B = c.dim("layers", 1, 3), c.dim("B", 1, 4)
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    sizes = [int(c.int(f"size{i}", 1, 5)) for i in range(n + 1)]
    acts = [c.choice(f"act{i}", ["relu", "tanh", "linear", "leaky_relu", "sigmoid", "ELU"]) for i in range(n)]
    bn, ln, drop, no = c.choice("bn", [False, True]), c.choice("ln", [False, True]), c.choice("drop", [0.0, 0.5]), c.choice("normalize_output", [False, True])
    m = fcn.FullyConnectedNetwork(sizes, acts, use_batch_norm=bn, use_layer_norm=ln, dropout_ratio=drop, normalize_output=no)
    m.eval()
    with torch.no_grad():
        for p in m.parameters():
            p.add_(torch.randn_like(p) * 0.5)
        for x in m.modules():
            if isinstance(x, torch.nn.BatchNorm1d):
                x.running_mean.add_(torch.randn_like(x.running_mean))
                x.running_var.mul_(2)
    x = torch.randn(B, sizes[0])
    out = c.call("forward", m, x)
    it = iter([p for p in m.modules() if isinstance(p, (torch.nn.Linear, torch.nn.BatchNorm1d, torch.nn.LayerNorm))])
    f = {"relu": torch.relu, "tanh": torch.tanh, "linear": lambda v: v, "leaky_relu": lambda v: torch.where(v > 0, v, v * 0.01), "sigmoid": torch.sigmoid, "ELU": lambda v: torch.where(v > 0, v, v.exp() - 1)}
    h = x
    try:
        for i in range(n):
            if bn:
                b = next(it)
                h = (h - b.running_mean) / (b.running_var + b.eps).sqrt() * b.weight + b.bias
            l = next(it)
            c.check("layer sizes as configured", tuple(l.weight.shape) == (sizes[i + 1], sizes[i]))
            h = h @ l.weight.T + l.bias
            if ln and (no or i < n - 1):
                q = next(it)
                h = (h - h.mean(1, keepdim=True)) / (h.var(1, unbiased=False, keepdim=True) + q.eps).sqrt() * q.weight + q.bias
            h = f[acts[i]](h)
        rest = list(it)
    except (StopIteration, AttributeError):
        rest = None
    c.check("normalisation, linear map and activation, layer after layer", rest == [] and c.close(out, h, atol=1e-4, rtol=1e-4))
    drops = [d for d in m.modules() if isinstance(d, torch.nn.Dropout)]
    c.same("dropout where asked, not on the raw output", [d.p for d in drops], [drop] * (0 if drop == 0 else n if no else n - 1))
    A, N = c.dim("A", 1, 3), c.choice("atoms", [None, 2])
    k = dqn.FullyConnectedDQN(sizes[0], A, [4], ["relu"], num_atoms=N)
    o = c.call("dqn", k, F(float_features=x))
    raw = k.fc(x)
    c.check("atoms of one action lie together", tuple(o.shape) == ((B, A, N) if N else (B, A)) and torch.equal(o.reshape(B, -1), raw))
    d = c.call("dueling", dq.DuelingQNetwork.make_fully_connected, sizes[0], A, [4, 6], ["relu", "relu"], num_atoms=N)
    c.check("constructed in training mode", d.training)
    d.eval()
    y = d(F(float_features=x))
    e = F(d.shared_network(F(float_features=x)))
    v, a = d.value_network(e), d.advantage_network(e)
    c.check("dueling with its own networks", c.close(y, v + a - a.reshape(B, -1).mean(1).reshape([B] + [1] * (a.dim() - 1)), atol=1e-5) and tuple(y.shape) == tuple(o.shape))
    p = c.call("parametric dueling", dq.ParametricDuelingQNetwork.make_fully_connected, sizes[0], 2, [4, 6], ["relu", "relu"])
    p.eval()
    act = F(float_features=torch.randn(B, 2))
    y = p(F(float_features=x), act)
    e = F(p.shared_network(F(float_features=x)))
    c.check("parametric dueling with its own networks", c.close(y, p.value_network(e) + p.advantage_network(e, act), atol=1e-5))


@contract("P38", "embeddings", under=[M + "embedding_bag_concat.py:EmbeddingBagConcat.forward", M + "no_soft_update_embedding.py:NoSoftUpdateEmbedding.__deepcopy__", M + "containers.py:Sequential.input_prototype", M + "mlp_scorer.py:MLPScorer.forward"], bounded=True, quick=60, bound="up to 4 rows of up to 3 ids in 4 features over 2 tables")
def embeddings(c):
    B, W, E = c.dim("B", 1, 4), c.dim("W", 1, 3), c.dim("E", 1, 3)
    import random
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    torch.manual_seed(rng.randint(0, 10 ** 6))
    cfg = rlt.ModelFeatureConfig(
        float_feature_infos=[rlt.FloatFeatureInfo(feature_id=i, name=f"f{i}") for i in range(W)],
        id_mapping_config={"t1": rlt.IdMapping(ids=[10, 20, 30]), "t2": rlt.IdMapping(ids=[5, 6])},
        id_list_feature_configs=[rlt.IdListFeatureConfig(name="b", feature_id=102, id_mapping_name="t2"), rlt.IdListFeatureConfig(name="a", feature_id=101, id_mapping_name="t1")],
        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name="z", feature_id=104, id_mapping_name="t2"), rlt.IdScoreListFeatureConfig(name="s", feature_id=103, id_mapping_name="t1")])
    m = c.call("construct", eb.EmbeddingBagConcat, W, cfg, E)
    size = {"a": 3, "b": 2, "s": 3, "z": 2}
    ids = {f: [[rng.randrange(size[f]) for _ in range(rng.randint(0, 3))] for _ in range(B)] for f in size}
    sc = {f: [[round(rng.uniform(-2, 2), 2) for _ in r] for r in ids[f]] for f in "zs"}
    off = lambda f: torch.tensor([sum(len(r) for r in ids[f][:i]) for i in range(B)], dtype=torch.long)
    flat = lambda rows, d: torch.tensor([x for r in rows for x in r], dtype=d)
    x = torch.randn(B, W)
    st = F(float_features=x, id_list_features={f: (off(f), flat(ids[f], torch.long)) for f in "ba"}, id_score_list_features={f: (off(f), flat(ids[f], torch.long), flat(sc[f], torch.float)) for f in "zs"})
    out = c.call("embed", m, st)
    w = {"a": m.embedding_bags["t1"].weight, "b": m.embedding_bags["t2"].weight, "s": m.embedding_bags["t1"].weight, "z": m.embedding_bags["t2"].weight}
    ok = tuple(out.shape) == (B, W + 4 * E) and m.output_dim == W + 4 * E
    for b in range(B):
        want = [sum((w[f][i] for i in ids[f][b]), torch.zeros(E)) for f in "ba"] + [sum((w[f][i] * v for i, v in zip(ids[f][b], sc[f][b])), torch.zeros(E)) for f in "zs"] + [x[b]]
        ok = ok and c.close(out[b], torch.cat(want), atol=1e-4)
    c.check("sums of the row's embeddings, weighted where scored, then its dense features", ok)
    seq = Sequential(m, torch.nn.Linear(m.output_dim, 2))
    c.check("a sequence of models takes what its first takes", tuple(seq(seq.input_prototype()).shape) == (1, 2))
    emb = NoSoftUpdateEmbedding(3, 2)
    dup = copy.deepcopy(torch.nn.Sequential(emb, torch.nn.Linear(2, 1)))
    c.check("copies share the embedding table", dup[0].weight is emb.weight)
    conc, logt = c.choice("concat", [True, False]), c.choice("log", [True, False])
    C, D = c.dim("C", 1, 3), 2
    sc = mlp_scorer.MLPScorer(input_dim=(W if conc else 0) + D, layer_sizes=[4], output_dim=1, concat=conc, log_transform=logt)
    docs = torch.rand(B, C, D) + 0.1
    user = torch.rand(B, W) + 0.1
    got = c.call("score", sc, F(float_features=user, candidate_docs=rlt.DocList(float_features=docs)))
    g = (lambda t: t.log()) if logt else (lambda t: t)
    rows = torch.stack([torch.stack([sc.mlp(torch.cat([g(user[b]), g(docs[b, k])] if conc else [g(docs[b, k])]))[0] for k in range(C)]) for b in range(B)])
    c.check("every candidate is scored with its own features and its user's", c.close(got, rows, atol=1e-5))


@contract("P38", "documents with their user", under=["reagent/types.py:FeatureData.concat_user_doc", M + "mlp_scorer.py:MLPScorer._concat_features", M + "mlp_scorer.py:MLPScorer.forward"])
def documents(c):
    B, C, W, D = c.dim("B"), c.dim("C"), c.dim("W"), c.dim("D")
    conc = c.choice("concat", [True, False])
    m = c.call("construct", mlp_scorer.MLPScorer, 2, [3], 1, conc, False)
    user, docs = c.tensor("user", [B, W]), c.tensor("docs", [B, C, D])
    obs = F(float_features=user, candidate_docs=rlt.DocList(float_features=docs))
    rows = c.call("features", m._concat_features, obs)
    if conc:
        c.eqt("the user's features, then the document's", rows, [B, C, W + D], lambda b, k, j: c.If(c.lt(j, W), c.at(user, b, c.If(c.lt(j, W), j, 0)), c.at(docs, b, k, c.If(c.lt(j, W), 0, j - W))))
    else:
        c.eqt("the document's features", rows, [B, C, D], lambda b, k, j: c.at(docs, b, k, j))


@contract("P38", "convolutional layers", under=[M + "convolutional_network.py:ConvolutionalNetwork." + x for x in ("__init__", "conv_forward", "forward")], bounded=True, quick=30, bound="up to 2 convolutions of images of up to 12 by 12 pixels, 3 images")
def convolutions(c):
    from reagent.models.convolutional_network import ConvolutionalNetwork
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    n = c.int("convolutions", 1, 2)
    dims = [c.int(f"channels{i}", 1, 3) for i in range(n + 1)]
    hk, wk = [[c.int(f"{s}{i}", 1, 2) for i in range(n)] for s in "hw"]
    pool = [c.int(f"pool{i}", 1, 2) for i in range(n)]
    H, W = c.int("height", 8, 12), c.int("width", 8, 12)
    p = SimpleNamespace(conv_dims=dims, conv_height_kernels=hk, conv_width_kernels=wk, pool_kernels_strides=pool, pool_types=["max"] * n, num_input_channels=dims[0], input_height=H, input_width=W)
    m = c.call("construct", ConvolutionalNetwork, p, [-1, 3, 2], ["relu", "linear"])
    x = torch.randn(3, dims[0], H, W)
    out = c.call("forward", m, x)
    for b in range(3):
        z = x[b]
        for i in range(n):
            w, bias = m.conv_layers[i].weight, m.conv_layers[i].bias
            hh, ww = z.shape[1] - hk[i] + 1, z.shape[2] - wk[i] + 1
            y = torch.stack([torch.stack([torch.stack([((w[o] * z[:, r:r + hk[i], q:q + wk[i]]).sum() + bias[o]).clamp(min=0) for q in range(ww)]) for r in range(hh)]) for o in range(dims[i + 1])])
            k = pool[i]
            z = torch.stack([torch.stack([y[:, r * k:r * k + k, q * k:q * k + k].amax((1, 2)) for q in range(ww // k)], 1) for r in range(hh // k)], 1)
        c.check("each image through its convolutions, pools and layers", c.close(out[b], m.feed_forward(z.reshape(1, -1))[0], atol=1e-4))


@contract("P38", "batch-constrained values", under=[M + "bcq.py:BatchConstrainedDQN.forward"])
def constrained(c):
    B, A, W = c.dim("B"), c.dim("A"), c.dim("W")
    drop = c.real("drop", 0.05, 0.95)
    q, im = c.net("q", [A], lo=-5, hi=5), c.net("im", [A], lo=-3, hi=3)
    m = c.call("construct", bcq.BatchConstrainedDQN, 1, q, im, drop)
    s = frows(c, "state", [B], W)
    out = c.call("forward", m, s)
    e = lambda b, a: c.fn("exp", c.netval("im", [(s.float_features, b)], a))
    z = lambda b: c.Sum(A, lambda a: e(b, a))
    rel = lambda b, a: c.div(c.div(e(b, a), z(b)), c.Max(A, lambda k: c.div(e(b, k), z(b))))
    v = lambda b, a: c.netval("q", [(s, b)], a)
    c.eqshape("one value per row and action", out, [B, A])
    c.forall("the model's value of actions the imitator deems likely enough", [B, A], lambda b, a: c.Or(rel(b, a) < drop, c.eq(c.at(out, b, a), v(b, a))))
    c.forall("far below any value otherwise", [B, A], lambda b, a: c.Or(c.Not(rel(b, a) < drop), c.at(out, b, a) < -1e6))
