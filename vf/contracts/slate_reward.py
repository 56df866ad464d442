"""P44: models of slate rewards see the shown items in order, the rest, and their own state."""
import math

import reagent.types as rlt
import torch
from reagent.model_utils import seq2slate_utils as su
from reagent.models import seq2slate_reward as sr
from reagent.net_builder.slate_reward.slate_reward_gru import SlateRewardGRU
from reagent.net_builder.slate_reward.slate_reward_transformer import SlateRewardTransformer
from reagent.parameters import GRUParameters, TransformerParameters
from reagent.prediction import predictor_wrapper as pw
from vf.contracts.serving import prep, vp
from vf.runner import contract

M = "reagent/models/seq2slate_reward.py:"
S = "reagent/models/seq2slate.py:"
N = "reagent/net_builder/slate_reward/"
G, T = M + "Seq2SlateGRURewardNet.", M + "Seq2SlateTransformerRewardNet."
OUT = lambda x: rlt.RewardNetworkOutput(predicted_reward=x)


def recorder(c, B, n, k):
    """a model of any answer that remembers what it was asked"""
    seen = []
    pred = c.tensor("predicted", [B, 1], lo=-5, hi=5)

    class Net(torch.nn.Module):
        max_src_seq_len, max_tgt_seq_len = n, k

        def forward(self, x):
            seen.append(x)
            return OUT(pred)
    return Net(), seen, pred


@contract("P44", "what the models are given", under=[M + "Seq2SlateRewardNetJITWrapper.forward"], bound="1 to 3 candidates, slates of 1 to 3 items (any number of rows, any features)", split=[("shape", 4)])
def given(c):
    B, D, K = c.dim("B"), c.dim("D"), c.dim("K")
    n, k = c.choice("shape", [(1, 1), (3, 1), (3, 2), (3, 3)])
    net, seen, pred = recorder(c, B, n, k)
    st, src, tgt = c.tensor("state", [B, D]), c.tensor("src", [B, n, K]), c.tensor("tgt", [B, k, K])
    mask, idx = c.tensor("mask", [B, n, n], kind="m"), c.tensor("idx", [B, k], kind="i", lo=2, hi=n + 2)
    out = c.call("jit", lambda: sr.Seq2SlateRewardNetJITWrapper(net)(st, src, tgt, mask, idx))
    c.eqt("the model's answer", out, [B, 1], lambda b, j: c.at(pred, b, j))
    x = seen.pop()
    c.eqt("state", x.state.float_features, [B, D], lambda b, j: c.at(st, b, j))
    c.eqt("candidates", x.src_seq.float_features, [B, n, K], lambda b, i, j: c.at(src, b, i, j))
    c.eqt("shown items", x.tgt_out_seq.float_features, [B, k, K], lambda b, i, j: c.at(tgt, b, i, j))
    c.eqt("attention mask", x.src_src_mask, [B, n, n], lambda b, i, j: c.at(mask, b, i, j))
    c.eqt("places of the shown items", x.tgt_out_idx, [B, k], lambda b, i: c.at(idx, b, i))


@contract("P44", "served", under=["reagent/prediction/predictor_wrapper.py:Seq2SlateRewardWithPreprocessor.forward"], split=[("shape", 4)], bound="1 to 3 candidates, slates of 1 to 3 items, 1 to 3 rows (any features)")
def served(c):
    W, D, V, K = c.dim("W"), c.dim("D"), c.dim("V"), c.dim("K")
    n, k = c.choice("shape", [(1, 1), (3, 1), (3, 2), (3, 3)])
    B = c.choice("rows", [1, 2, 3])
    net, seen, pred = recorder(c, B, n, k)
    pre, cpre = prep(c, "pre", W, D), prep(c, "cpre", V, K)
    v, cv = vp(c, "state features", [B], W), vp(c, "candidate features", [B, n], V)
    m = c.call("construct", pw.Seq2SlateRewardWithPreprocessor, net, pre, cpre)
    out = c.call("predict", m, v, cv)
    c.eqt("served: the model's answer", out, [B, 1], lambda b, j: c.at(pred, b, j))
    x = seen.pop()
    state, docs = pre.net(*v), cpre.net(*cv)
    c.eqt("served: the normalised state", x.state.float_features, [B, D], lambda b, j: c.at(state, b, j))
    c.eqt("served: the normalised candidates", x.src_seq.float_features, [B, n, K], lambda b, i, j: c.at(docs, b, i, j))
    c.eqt("served: the first candidates are shown, in order", x.tgt_out_seq.float_features, [B, k, K], lambda b, i, j: c.at(docs, b, i, j))
    c.eqt("served: and their places say so", x.tgt_out_idx, [B, k], lambda b, i: i + 2)
    c.eqt("served: every candidate attends to all", x.src_src_mask, [B, n, n], lambda b, i, j: 1)


def parts(c):
    """a random ranking input; the model sees what it says and nothing else"""
    B, n = c.dim("B", 1, 4), c.dim("candidates", 1, 5)
    k = c.choice("slate", list(range(1, n + 1)))
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    D, K = c.choice("state width", [1, 3]), c.choice("candidate width", [1, 2, 4])
    st, src = torch.randn(B, D), torch.randn(B, n, K)
    idx = torch.stack([torch.randperm(n)[:k] for _ in range(B)])
    mask = torch.maximum(torch.bernoulli(torch.full((B, n, n), 0.7)), torch.eye(n))
    if c.choice("all attend", [True, False]):
        mask = torch.ones(B, n, n)
    layers = c.choice("layers", [1, 2])
    return B, n, k, D, K, st, src, idx, mask, layers


def put(st, src, idx, mask, rows=slice(None)):
    tgt = torch.stack([src[b, idx[b]] for b in range(len(src))])
    return rlt.PreprocessedRankingInput.from_tensors(state=st[rows].clone(), src_seq=src[rows].clone(), src_src_mask=mask[rows].clone(), tgt_out_seq=tgt[rows].clone(), tgt_out_idx=idx[rows] + 2)


def embed(net, s, items):
    """state and item embeddings side by side"""
    lin = lambda e, x: (x @ e.linear.weight.T + e.linear.bias) * math.sqrt(e.linear.weight.shape[0])
    return torch.cat([lin(net.state_embedder, s).expand(len(items), -1), lin(net.candidate_embedder, items)], 1)


def shared(c, net, a, f, fresh):
    """rows by themselves, nothing remembered, nothing of the input overwritten"""
    B = len(a[0])
    x = put(*a)
    copy = [t.clone() for t in (x.state.float_features, x.src_seq.float_features, x.tgt_out_seq.float_features, x.src_src_mask, x.tgt_out_idx)]
    p = f(x)
    c.eqshape("one reward per row", p, [B, 1])
    for b in range(B):
        c.check("each row by itself", c.close(p[b:b + 1], f(put(*a, rows=slice(b, b + 1))), atol=1e-4))
    c.check("the input is left alone", all(torch.equal(s, t) for s, t in zip(copy, (x.state.float_features, x.src_seq.float_features, x.tgt_out_seq.float_features, x.src_src_mask, x.tgt_out_idx))))
    c.check("asked again, the same", c.close(p, f(x)))
    w = sr.Seq2SlateRewardNetJITWrapper(net)
    c.check("through the wrapper, the same", c.close(p, w(*copy)))
    p.sum().backward()
    c.check("the vector that marks the end or start learns", fresh().grad is not None)
    return p


@contract("P44", "recurrent model", under=[G + "_convert_seq2slate_to_reward_model_format", G + "embed", G + "forward", S + "Embedder.forward", M + "Seq2SlateRewardNetBase.input_prototype", N + "slate_reward_gru.py:SlateRewardGRU.build_slate_reward_network"], bounded=True, quick=60, bound="random networks of 1 or 2 layers, up to 4 rows and 5 candidates")
def gru(c):
    B, n, k, D, K, st, src, idx, mask, layers = parts(c)
    b_ = c.call("builder", lambda: SlateRewardGRU(gru=GRUParameters(dim_model=6, num_stacked_layers=layers)))
    net = c.call("construct", b_.build_slate_reward_network, D, K, n, k)
    c.same("configured size", (net.gru.num_layers, net.gru.hidden_size, net.gru.bidirectional, net.max_src_seq_len, net.max_tgt_seq_len), (layers, 6, False, n, k))
    with torch.no_grad():
        net.end_of_seq_vec.copy_(torch.randn(K))
    f = lambda x: c.call("reward", net, x).predicted_reward
    a = (st, src, idx, mask)
    p = shared(c, net, a, f, lambda: net.end_of_seq_vec)
    with torch.no_grad():
        for b in range(B):
            shown = idx[b].tolist()
            order = shown + [i for i in range(n) if i not in shown]
            x = embed(net, st[b], torch.cat([src[b, order], net.end_of_seq_vec[None]]))
            o, h = net.gru(x[None])
            o, h = o[0], h[-1, 0]
            w = torch.softmax(o @ h / math.sqrt(K), 0)
            want = torch.cat([h, w @ o]) @ net.proj.weight[0] + net.proj.bias[0]
            c.check("shown items in order, then the others, then the end", c.close(p[b].detach(), want[None], atol=1e-4))
    proto = c.call("prototype", net.input_prototype)
    c.eqshape("the prototype is a valid input", f(proto), [1, 1])


def ln(m, x):
    d = x - x.mean(1, keepdim=True)
    return d / torch.sqrt((d * d).mean(1, keepdim=True) + m.eps) * m.weight + m.bias


def mha(m, q, kv, mask):
    """attention of every head, only where the mask allows"""
    H = m.num_heads
    lin = lambda l, x: x @ l.weight.T + l.bias
    Q, Kk, V = lin(m.linears[0], q), lin(m.linears[1], kv), lin(m.linears[2], kv)
    w = Q.shape[1] // H
    outs = []
    for h in range(H):
        s = slice(h * w, (h + 1) * w)
        e = torch.exp(Q[:, s] @ Kk[:, s].T / math.sqrt(w)) * mask
        outs.append(e / e.sum(1, keepdim=True) @ V[:, s])
    return lin(m.linears[3], torch.cat(outs, 1))


def ff(m, x):
    a, b = m.net[0], m.net[2]
    return torch.relu(x @ a.weight.T + a.bias) @ b.weight.T + b.bias


def positioned(m, x):
    return torch.relu(torch.cat([x, torch.arange(float(len(x)))[:, None]], 1) @ m.pos_embed.weight.T + m.pos_embed.bias)


@contract("P44", "attention model", under=[T + "_convert_seq2slate_to_reward_model_format", T + "encode", T + "decode", T + "forward"] + [S + x + ".forward" for x in ("MultiHeadedAttention", "Encoder", "EncoderLayer", "Decoder", "DecoderLayer", "SublayerConnection", "PositionwiseFeedForward", "PositionalEncoding", "Embedder")] + ["reagent/model_utils/seq2slate_utils.py:attention", "reagent/model_utils/seq2slate_utils.py:clones", "reagent/model_utils/seq2slate_utils.py:subsequent_mask", N + "slate_reward_transformer.py:SlateRewardTransformer.build_slate_reward_network"], bounded=True, quick=60, bound="random networks of 1 or 2 layers and heads, up to 4 rows and 5 candidates")
def transformer(c):
    B, n, k, D, K, st, src, idx, mask, layers = parts(c)
    heads, wide = c.choice("heads", [1, 2]), c.choice("feedforward", [4, 7])
    b_ = c.call("builder", lambda: SlateRewardTransformer(transformer=TransformerParameters(num_heads=heads, dim_model=8, dim_feedforward=wide, num_stacked_layers=layers)))
    net = c.call("construct", b_.build_slate_reward_network, D, K, n, k)
    ls = list(net.encoder.layers) + list(net.decoder.layers)
    c.check("configured size", len(ls) == 2 * layers and all(l.self_attn.num_heads == heads and l.feed_forward.net[0].out_features == wide for l in ls))
    own = [p.data_ptr() for p in net.parameters()]
    c.check("no layer shares its weights with another", len(set(own)) == len(own) == sum(1 for _ in net.state_dict()))
    with torch.no_grad():
        for p in net.parameters():
            p.add_(0.2 * torch.randn_like(p))  # every weight and vector its own value
    f = lambda x: c.call("reward", net, x).predicted_reward
    a = (st, src, idx, mask)
    p = shared(c, net, a, f, lambda: net.decoder_start_vec)
    with torch.no_grad():
        for b in range(B):
            x = positioned(net.positional_encoding_encoder, embed(net, st[b], src[b]))
            for l in net.encoder.layers:
                y = ln(l.sublayer[0].norm, x)
                x = x + mha(l.self_attn, y, y, mask[b])
                x = x + ff(l.feed_forward, ln(l.sublayer[1].norm, x))
            mem = ln(net.encoder.norm, x)
            x = positioned(net.positional_encoding_decoder, embed(net, st[b], torch.cat([net.decoder_start_vec[None], src[b, idx[b]]])))
            causal = torch.tril(torch.ones(k + 1, k + 1))
            for l in net.decoder.layers:
                y = ln(l.sublayer[0].norm, x)
                x = x + mha(l.self_attn, y, y, causal)
                x = x + mha(l.src_attn, ln(l.sublayer[1].norm, x), mem, torch.ones(k + 1, n))
                x = x + ff(l.feed_forward, ln(l.sublayer[2].norm, x))
            want = ln(net.decoder.norm, x)[-1] @ net.proj.weight[0] + net.proj.bias[0]
            c.check("the start and every shown item in order, attending to the candidates", c.close(p[b].detach(), want[None], atol=1e-3))
    proto = c.call("prototype", net.input_prototype)
    c.eqshape("the prototype is a valid input", f(proto), [1, 1])
