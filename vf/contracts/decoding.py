"""P31: slate decoding: masks, sequence probabilities, ranking and scoring modes."""
import itertools
import math

import torch
import reagent.types as rlt
from reagent.model_utils import seq2slate_utils as su
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.models.seq2slate import BaselineNet, Generator, Seq2SlateTransformerModel, Seq2SlateTransformerNet
from vf.runner import contract
from vf.contracts._common import *
from vf.smt import Unsupported

U = "reagent/model_utils/seq2slate_utils.py:"
S2 = "reagent/models/seq2slate.py:"
X = S2 + "Seq2SlateTransformerModel."


def used(c, idx, b, t, k):
    """symbol k occurs among the first t + 1 decoder inputs"""
    return c.Or(*[c.And(c.le(j, t), c.eq(c.at(idx, b, j), k)) for j in range(int(c.shape(idx)[1]))])


@contract("P31", "decoding masks", under=[U + "mask_logits_by_idx", U + "pytorch_decoder_mask", U + "subsequent_mask"], split=[("length", 3)], bound="1 to 3 decoder inputs (any number of rows, candidates and logits)")
def masks(c):
    B, n, D = c.dim("B"), c.dim("candidates"), 2
    T = c.choice("length", [1, 2, 3])
    idx = c.tensor("symbols", [B, T], kind="i", lo=0, hi=n + 2)
    lg = c.tensor("logits", [B, T, n + 2], lo=-5, hi=5)
    keep = lg.clone() if not c.sym else lg
    out = c.call("mask_logits_by_idx", su.mask_logits_by_idx, lg.clone() if not c.sym else lg, idx)
    c.eqshape("one logit per symbol", out, [B, T, n + 2])
    bar = lambda b, t, k: c.Or(c.lt(k, 2), used(c, idx, b, t, k))
    p = c.call("softmax", torch.softmax, out, 2) if c.sym else torch.nan_to_num(torch.softmax(out, 2))
    c.forall("placeholders and items already placed cannot be chosen", [B, T, n + 2], lambda b, t, k: c.Or(c.Not(bar(b, t, k)), c.eq(c.at(out, b, t, k), -math.inf)))
    c.forall("other logits are kept", [B, T, n + 2], lambda b, t, k: c.Or(bar(b, t, k), c.eq(c.at(out, b, t, k), c.at(keep, b, t, k))))
    h = c.choice("heads", [1, 2])
    mem = c.tensor("memory", [B, n, D])
    tt, ts = c.call("pytorch_decoder_mask", su.pytorch_decoder_mask, mem, idx, h)
    c.eqt("no attention to later inputs", tt, [B * h, T, T], lambda r, i, j: c.lt(i, j))
    c.eqshape("a mask per row and head", ts, [B * h, T, n])
    for e in range(h):
        c.forall("no attention to items already placed, in any head", [B, T, n], lambda b, t, k: c.eq(c.at(ts, b * h + e, t, k), used(c, idx, b, t, k + 2)))


@contract("P31", "sequence probabilities", under=[U + "per_symbol_to_per_seq_probs", U + "per_symbol_to_per_seq_log_probs"], split=[("length", 3)], bound="products over 1 to 3 positions (any number of rows and candidates)")
def seqprob(c):
    B, n = c.dim("B"), c.dim("candidates")
    T = c.choice("length", [1, 2, 3])
    p = c.tensor("probs", [B, T, n], lo=0.001, hi=1)
    idx = c.tensor("symbols", [B, T], kind="i", lo=0, hi=n)
    got = c.call("per_symbol_to_per_seq_probs", su.per_symbol_to_per_seq_probs, p, idx)

    def prod(b):
        r = 1.0
        for t in range(T):
            r = r * c.at(p, b, t, c.at(idx, b, t))
        return r

    c.eqt("probability of a ranking: product over its positions", got, [B, 1], lambda b, _: c.max(prod(b), 1e-40))
    L = c.dim("long")
    lp = c.tensor("log_probs", [B, L, n], lo=-4, hi=0)
    ix = c.tensor("symbols of any length", [B, L], kind="i", lo=0, hi=n)
    got = c.call("per_symbol_to_per_seq_log_probs", su.per_symbol_to_per_seq_log_probs, lp, ix)
    c.eqt("log-probability of a ranking: sum over its positions", got, [B, 1], lambda b, _: c.Sum(L, lambda t: c.at(lp, b, t, c.at(ix, b, t))))


class Enc(torch.nn.Module):
    """the encoder: any representation of the candidates"""

    def __init__(self, mem):
        super().__init__()
        self.mem = mem

    def forward(self, *a):
        return self.mem


def model(c, arch, n, slate, sdim=2, cdim=2, heads=1, dim=4, layers=1, **k):
    return c.call("construct", lambda: Seq2SlateTransformerModel(sdim, cdim, layers, heads, dim, 8, n, slate, arch, **k))


@contract("P31", "ranking by encoder scores", under=[X + "_rank", X + "_log_probs", X + "decode", X + "forward", S2 + "Generator.forward"], split=[("shape", 4), ("greedy", 2)], bound="1 to 3 candidates (any number of rows, any scores and draws)")
def frechet(c):
    B = c.dim("B")
    n, slate = c.choice("shape", [(1, 1), (2, 1), (2, 2), (3, 2)])
    greedy = c.choice("greedy", [True, False])
    m = model(c, Seq2SlateOutputArch.FRECHET_SORT, n, slate)
    if not (hasattr(m, "encode") and hasattr(m, "encoder_scorer")):
        raise Unsupported("the scores of the encoder cannot be set")
    sc = c.tensor("scores", [B, n, 1], lo=-4, hi=4)
    m.encode = lambda *a, **k: sc
    m.encoder_scorer = torch.nn.Identity()
    st, src = c.tensor("state", [B, 2]), c.tensor("candidates", [B, n, 2])
    out = c.call("rank", lambda: m(Seq2SlateMode.RANK_MODE.value, st, src, tgt_seq_len=slate, greedy=greedy))
    idx = out.ranked_tgt_out_idx
    c.eqshape("one ranking per row", idx, [B, slate])
    c.forall("items, not placeholders", [B, slate], lambda b, t: c.And(c.le(2, c.at(idx, b, t)), c.lt(c.at(idx, b, t), n + 2)))
    for t in range(1, slate):
        for u in range(t):
            c.forall("no item twice", [B], lambda b: c.Not(c.eq(c.at(idx, b, t), c.at(idx, b, u))))

    def free(b, t, k):
        return c.And(*[c.Not(c.eq(c.at(idx, b, u), k + 2)) for u in range(t)]) if t else True

    s = lambda b, k: c.at(sc, b, k, 0)

    def prob(b, t, k):
        """softmax over the candidates still to be placed"""
        z = sum(c.If(free(b, t, j), c.exp(s(b, j)), 0.0) for j in range(n))
        return c.If(free(b, t, k), c.div(c.exp(s(b, k)), z), 0.0)

    if greedy:
        for t in range(1 if c.sym and n == 3 else slate):
            for k in range(n):
                c.forall("the best remaining candidate first", [B], lambda b: c.Or(c.Not(free(b, t, k)), c.le(prob(b, t, k), pick(c, c.at(idx, b, t) - 2, [prob(b, t, j) for j in range(n)]) + (0.0 if c.sym else 1e-6))))
    for t in range(slate):
        for k in range(n):
            c.forall("position probabilities: softmax over the remaining candidates", [B], lambda b: c.eq(c.at(out.ranked_per_symbol_probs, b, t, k + 2), prob(b, t, k)))
        c.forall("none for placeholders", [B, 2], lambda b, k: c.eq(c.at(out.ranked_per_symbol_probs, b, t, k), 0))

    def seq(b):
        r = 1.0
        for t in range(slate):
            r = r * pick(c, c.at(idx, b, t) - 2, [prob(b, t, k) for k in range(n)])
        return r

    c.eqt("probability of the ranking", out.ranked_per_seq_probs, [B, 1], lambda b, _: c.max(seq(b), 1e-40))
    # scoring a given ranking
    if slate == 1:
        act = c.tensor("given", [B, 1], kind="i", lo=0, hi=n)
        b = c.call("from_input", lambda: rlt.PreprocessedRankingInput.from_input(st, src, "cpu", action=act))
        kw = dict(tgt_in_idx=b.tgt_in_idx, tgt_out_idx=b.tgt_out_idx, tgt_in_seq=b.tgt_in_seq.float_features)
        z = lambda b: sum(c.exp(s(b, j)) for j in range(n))
        p = lambda b, k: c.div(c.exp(s(b, k)), z(b))
        lp = c.call("log_probs", lambda: m(Seq2SlateMode.PER_SEQ_LOG_PROB_MODE.value, st, src, **kw)).per_seq_log_probs
        c.eqt("log-probability of a given ranking", lp, [B, 1], lambda b, _: pick(c, c.at(act, b, 0), [c.log(c.max(p(b, k), 1e-40)) for k in range(n)]))
        sy = c.call("log_probs", lambda: m(Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE.value, st, src, **kw)).per_symbol_log_probs
        for k in range(n):
            c.forall("log-probability of each candidate", [B], lambda b: c.eq(c.at(sy, b, 0, k + 2), c.log(c.max(p(b, k), 1e-40))))


def pick(c, k, xs):
    r = xs[-1]
    for i in range(len(xs) - 1):
        r = c.If(c.eq(k, i), xs[i], r)
    return r


@contract("P31", "scores of a slate", under=[X + "encoder_output_to_scores"], split=[("shape", 3)], bound="up to 3 candidates (any number of rows and any scores)")
def scores(c):
    B = c.dim("B")
    n, slate = c.choice("shape", [(1, 1), (2, 1), (3, 2)])
    m = model(c, Seq2SlateOutputArch.ENCODER_SCORE, n, slate)
    if not (hasattr(m, "encode") and hasattr(m, "encoder_scorer")):
        raise Unsupported("the scores of the encoder cannot be set")
    sc = c.tensor("scores", [B, n, 1], lo=-4, hi=4)
    m.encode = lambda *a, **k: sc
    m.encoder_scorer = torch.nn.Identity()
    st, src = c.tensor("state", [B, 2]), c.tensor("candidates", [B, n, 2])
    idx = c.tensor("slate", [B, slate], kind="i", lo=2, hi=n + 2)
    got = c.call("score", lambda: m(Seq2SlateMode.ENCODER_SCORE_MODE.value, st, src, tgt_out_idx=idx)).encoder_scores
    c.eqt("the score of each item of the slate", got, [B, slate], lambda b, t: pick(c, c.at(idx, b, t) - 2, [c.at(sc, b, k, 0) for k in range(n)]))


@contract("P31", "whole networks", under=[X + x for x in ("_rank", "_log_probs", "encode", "decode", "encoder_output_to_scores")] + [S2 + "Seq2SlateNet.forward", S2 + "DecoderPyTorch.forward", S2 + "DecoderLastLayerPytorch.forward", S2 + "EncoderPyTorch.forward", S2 + "PositionalEncoding.forward", S2 + "Embedder.forward", S2 + "BaselineNet.forward"], bounded=True, quick=30, bound="random networks of 1 or 2 layers and heads, up to 4 rows and 5 candidates")
def networks(c):
    B, n = c.dim("B", 1, 4), c.dim("candidates", 1, 5)
    slate = c.choice("slate", list(range(1, n + 1)))
    arch = c.choice("arch", [Seq2SlateOutputArch.AUTOREGRESSIVE, Seq2SlateOutputArch.FRECHET_SORT, Seq2SlateOutputArch.ENCODER_SCORE])
    heads, layers = c.choice("heads", [1, 2]), c.choice("layers", [1, 2])
    greedy = c.choice("greedy", [True, False])
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    net = Seq2SlateTransformerNet(state_dim=3, candidate_dim=2, num_stacked_layers=layers, dim_model=8, max_src_seq_len=n, max_tgt_seq_len=slate, output_arch=arch, temperature=1.0, num_heads=heads, dim_feedforward=8)
    net.eval()
    st, src = torch.randn(B, 3), torch.randn(B, n, 2)
    b = rlt.PreprocessedRankingInput.from_input(st, src, torch.device("cpu"))
    out = c.call("rank", lambda: net(b, Seq2SlateMode.RANK_MODE, tgt_seq_len=slate, greedy=greedy))
    idx = out.ranked_tgt_out_idx
    c.eqshape("one ranking per row", idx, [B, slate])
    for r in idx.tolist():
        c.check("distinct items, no placeholders", len(set(r)) == slate and all(2 <= k < n + 2 for k in r))
    act = idx - 2
    given = rlt.PreprocessedRankingInput.from_input(st, src, torch.device("cpu"), action=act)
    one = lambda i: rlt.PreprocessedRankingInput.from_input(st[i:i + 1], src[i:i + 1], torch.device("cpu"), action=act[i:i + 1])
    perm = torch.randperm(n)
    inv = torch.argsort(perm)
    moved = rlt.PreprocessedRankingInput.from_input(st, src[:, perm], torch.device("cpu"), action=inv[act])
    close = lambda a, b: a.shape == b.shape and c.close(a, b, atol=2e-4)
    if arch is Seq2SlateOutputArch.ENCODER_SCORE:
        c.check("certain", close(out.ranked_per_seq_probs, torch.ones(B, 1)))
        f = lambda x: c.call("score", lambda: net(x, Seq2SlateMode.ENCODER_SCORE_MODE)).encoder_scores
        s = f(given)
        c.eqshape("a score per item", s, [B, slate])
        c.check("ranked by score", bool((s[:, 1:] <= s[:, :-1] + 1e-5).all()))
        for i in range(B):
            c.check("each row scored by itself", close(s[i:i + 1], f(one(i))))
        c.check("the order in which candidates are presented does not matter", close(s, f(moved)))
        rest = rlt.PreprocessedRankingInput.from_input(st, src, torch.device("cpu"), action=torch.arange(n).repeat(B, 1))
        full = f(rest)
        c.check("the best candidates", close(torch.sort(full, dim=1, descending=True)[0][:, :slate], s))
        return
    f = lambda x: c.call("log_prob", lambda: net(x, Seq2SlateMode.PER_SEQ_LOG_PROB_MODE)).log_probs
    g = lambda x: c.call("log_probs", lambda: net(x, Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE)).log_probs
    p = out.ranked_per_symbol_probs
    c.eqshape("a distribution per position", p, [B, slate, n + 2])
    c.check("that sums to one", close(p.sum(2), torch.ones(B, slate)))
    c.check("without placeholders", bool((p[:, :, :2] == 0).all()))
    for b_ in range(B):
        for t in range(slate):
            c.check("nor items already placed", all(float(p[b_, t, k]) == 0 for k in idx[b_, :t].tolist()))
            if greedy:
                c.check("the most probable item first", float(p[b_, t, int(idx[b_, t])]) >= float(p[b_, t].max()) - 1e-6)
    prod = torch.gather(p, 2, idx.unsqueeze(2)).squeeze(2).prod(1, keepdim=True)
    c.check("probability of the ranking: product over positions", close(out.ranked_per_seq_probs, prod))
    lp, sy = f(given), g(given)
    c.check("the scoring mode gives the ranking the probability it was drawn with", close(lp, torch.log(prod)))
    c.check("and so do its positions", close(torch.exp(sy), p))
    for i in range(B):
        c.check("each row scored by itself", close(lp[i:i + 1], f(one(i))))
    c.check("the order in which candidates are presented does not matter", close(lp, f(moved)))
    if n <= 4:
        tot = 0
        for r in itertools.permutations(range(n), slate):
            x = rlt.PreprocessedRankingInput.from_input(st, src, torch.device("cpu"), action=torch.tensor([r] * B))
            tot = tot + torch.exp(f(x))
        c.check("probabilities of all rankings sum to one", close(tot, torch.ones(B, 1)))
    bn = BaselineNet(3, 4, layers)
    v = bn(b)
    c.check("a baseline per row", v.shape == (B, 1) and close(v[:1], bn(one(0))))
