"""P40: every reported value reaches each of its observers once and aggregates over what was reported."""
import random
from types import SimpleNamespace

import reagent.types as rlt
import torch
from reagent.core import aggregators as agg
from reagent.core import observers as obs
from reagent.core.tracker import Aggregator, ObservableMixin, Observer, observable
from vf.contracts._common import *
from vf.runner import contract

A_ = "reagent/core/aggregators.py:"
O_ = "reagent/core/observers.py:"
T_ = "reagent/core/tracker.py:"


class Log(Aggregator):
    def __init__(self, key):
        super().__init__(key)
        self.seen = []

    def aggregate(self, values):
        self.seen.append(list(values))


@contract("P40", "one more value", under=[O_ + "IntervalAggregatingObserver.update", O_ + "IntervalAggregatingObserver.flush", T_ + "Aggregator.__call__"], split=[("pending", 4)], bound="any number of values reported so far, up to 3 pending ones")
def interval(c):
    k = c.choice("pending", [0, 1, 2, 3])
    none = c.choice("interval given", [True, False])
    n = c.int("n", 0, 10 ** 6)
    every = c.int("every", 1, 10 ** 6) if none else None
    # invariant: the pending values are those since the last multiple of the interval
    if every is not None:
        c.assume(c.eq(n % every, k))
    else:
        c.assume(c.eq(n, k))
    a = Log("loss")
    o = c.call("construct", obs.IntervalAggregatingObserver, every, a)
    c.same("observes its value and the end of the epoch", sorted(o.get_observing_keys()), ["epoch_end", "loss"])
    pend = [object() for _ in range(k)]
    o.iteration, o.intermediate_values = n, list(pend)
    v = object()
    c.call("update", o.update, "loss", v)
    full = bool((n + 1) % every == 0) if every is not None else False
    if full:
        c.check("aggregates everything since the last time, in order", a.seen == [pend + [v]])
        c.check("and starts over", o.intermediate_values == [])
    else:
        c.check("keeps the value for later", a.seen == [] and o.intermediate_values == pend + [v])
    if every is not None:
        c.checkeq("invariant: pending values since the last multiple", (o.iteration % every), len(o.intermediate_values))
    a.seen.clear()
    rest = list(o.intermediate_values)
    c.call("epoch end", o.update, "epoch_end", 3)
    c.check("the epoch's end aggregates what is left, once", a.seen == ([rest] if rest else []))
    c.check("a new epoch starts counting anew", o.iteration == 0 and o.intermediate_values == [])
    a.seen.clear()
    c.call("flush", o.flush)
    c.check("nothing is aggregated twice", a.seen == [])


class Writer:
    def __init__(self):
        self.scalars, self.hists = {}, {}

    def add_custom_scalars_multilinechart(self, tags, category=None, title=None):
        self.chart = (tags, category, title)

    def add_scalar(self, key, v, *a, **k):
        self.scalars.setdefault(key, []).append(v)

    def add_histogram(self, key, v, *a, **k):
        self.hists.setdefault(key, []).append(v)


@contract("P40", "aggregated values", under=[A_ + "TensorAggregator.__call__", A_ + "MeanAggregator.aggregate", A_ + "FunctionsByActionAggregator.aggregate", A_ + "ActionCountAggregator.aggregate", A_ + "TensorBoardHistogramAndMeanAggregator.aggregate", A_ + "TensorBoardActionHistogramAndMeanAggregator.aggregate", A_ + "TensorBoardActionCountAggregator.aggregate"], bound="3 actions, 2 batches of any size")
def aggregate(c):
    N1, N2, A = c.dim("N1"), c.dim("N2"), 3
    x, y = c.tensor("x", [N1, 1]), c.tensor("y", [N2, 1])
    # the rows of the first batch, then those of the second
    xy = torch.cat([x, y])
    tot = c.Sum(N1 + N2, lambda i: c.at(xy, i, 0))
    m = c.call("construct", agg.MeanAggregator, "loss")
    c.call("mean", m, "loss", [x, y])
    c.same("one mean per call", len(m.values), 1)
    c.checkeq("mean over all rows of all batches", m.values[0], c.div(tot, N1 + N2))
    w = Writer()
    t = c.call("construct", agg.TensorBoardHistogramAndMeanAggregator, "loss", "lk")
    c.call("histogram", t, "loss", [x, y], inject={"SummaryWriterContext": w})
    c.same("one mean written", sorted(w.scalars), ["lk/mean"])
    c.checkeq("the mean that is written", c.scalar(w.scalars["lk/mean"][0]), c.div(tot, N1 + N2))
    c.eqshape("all rows go into the histogram", w.hists["lk"][0], [N1 + N2, 1])
    p, q = c.tensor("p", [N1, A]), c.tensor("q", [N2, A])
    names = ["A", "B", "C"]
    f = c.call("construct", agg.FunctionsByActionAggregator, "model_values", names, {"mean": lambda v, dim: v.mean(dim=dim), "sum": lambda v, dim: v.sum(dim=dim)})
    c.call("by action", f, "model_values", [p, q])
    pq = torch.cat([p, q])
    col = lambda a: c.Sum(N1 + N2, lambda i: c.at(pq, i, a))
    w = Writer()
    h = c.call("construct", agg.TensorBoardActionHistogramAndMeanAggregator, "model_values", "cat", "ti", names, inject={"SummaryWriterContext": w})
    c.call("histograms", h, "model_values", [p, q], inject={"SummaryWriterContext": w})
    for a, nm in enumerate(names):
        c.same("one value per call", (len(f.values["mean"][nm]), len(f.values["sum"][nm])), (1, 1))
        c.checkeq("each function of the action's own column", f.values["mean"][nm][0], c.div(col(a), N1 + N2))
        c.checkeq("each function of the action's own column", f.values["sum"][nm][0], col(a))
        c.checkeq("the action's mean that is written", c.scalar(w.scalars[f"cat/ti/{nm}/mean"][0]), c.div(col(a), N1 + N2))
    g, k = c.tensor("g", [N1, 1], "i", 0, A), c.tensor("k", [N2, 1], "i", 0, A)
    n = c.call("construct", agg.ActionCountAggregator, "logged", names)
    c.call("counts", n, "logged", [g, k])
    w = Writer()
    b = c.call("construct", agg.TensorBoardActionCountAggregator, "logged", "ti", names, inject={"SummaryWriterContext": w})
    c.call("written counts", b, "logged", [g, k], inject={"SummaryWriterContext": w})
    gk = torch.cat([g, k])
    for a, nm in enumerate(names):
        cnt = c.Sum(N1 + N2, lambda i: c.If(c.eq(c.at(gk, i, 0), a), 1, 0))
        c.same("one count per call", len(n.values[nm]), 1)
        c.checkeq("how often the action occurs", n.values[nm][0], cnt)
        c.checkeq("the count that is written", w.scalars[f"actions/ti/{nm}"][0], cnt)


class Probe(Observer):
    def __init__(self, keys):
        super().__init__(keys)
        self.seen = []

    def update(self, key, value):
        self.seen.append((key, value))


@contract("P40", "histories of reports", under=[T_ + "ObservableMixin.notify_observers", T_ + "ObservableMixin.add_observer", T_ + "observable", O_ + "CompositeObserver.update", O_ + "ValueListObserver.update", O_ + "EpochEndObserver.update", O_ + "IntervalAggregatingObserver.update", A_ + "ActionCountAggregator.get_distributions", A_ + "ActionCountAggregator.get_cumulative_distributions", A_ + "RecentValuesAggregator.aggregate"], bounded=True, quick=120, bound="up to 30 reports of 3 values over up to 3 epochs")
def histories(c):
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))

    class Thing:
        def __init__(self, x):
            self.x = x
    Obs = observable(loss=torch.Tensor, action=torch.Tensor, note=str, epoch_end=int)(Thing)
    t = c.call("construct", Obs, 5)
    c.check("the class works as before", t.x == 5)
    every = c.choice("every", [None, 1, 2, 3])
    logs = [Log("loss"), Log("loss")]
    ivs = [obs.IntervalAggregatingObserver(every, logs[0]), obs.IntervalAggregatingObserver(2, logs[1], observe_epoch_end=False)]
    vl, pr = obs.ValueListObserver("loss"), Probe(["loss", "note", "unknown"])
    ends = []
    comp = obs.CompositeObserver(ivs + [obs.EpochEndObserver(ends.append)])
    many = c.choice("direct", [True, False])
    c.call("add", t.add_observers, [vl, pr, comp])
    if many:
        c.call("add again", t.add_observer, pr)
    n = int(c.int("n", 0, 30))
    sent, notes, epochs, groups = [], [], 0, [[], []]
    pend = [[], []]
    cnt = [0, 0]
    for i in range(n):
        what = rng.choice(["loss"] * 5 + ["note", "epoch", "none", "both"])
        v = round(rng.uniform(-3, 3), 2)
        if what in ("loss", "both"):
            form = rng.choice(["float", "scalar", "grad"])
            x = v if form == "float" else torch.tensor(v) if form == "scalar" else torch.tensor([[v]], requires_grad=True)
            kw = dict(loss=x, note=f"n{i}") if what == "both" else dict(loss=x)
            c.call("notify", t.notify_observers, **kw)
            sent.append(v)
            if what == "both":
                notes.append(f"n{i}")
            for j, e in enumerate((every, 2)):
                pend[j].append(v)
                cnt[j] += 1
                if e and cnt[j] % e == 0:
                    groups[j].append(pend[j])
                    pend[j] = []
        elif what == "note":
            c.call("notify", t.notify_observers, note=f"n{i}")
            notes.append(f"n{i}")
        elif what == "none":
            c.call("notify", t.notify_observers, loss=None, note=None)
        else:
            c.call("notify", t.notify_observers, epoch_end=epochs)
            epochs += 1
            if pend[0]:
                groups[0].append(pend[0])
            pend[0], cnt[0] = [], 0
    val = lambda x: float(torch.as_tensor(x).reshape(-1)[0])
    close = lambda a, b: len(a) == len(b) and all(abs(val(x) - y) < 1e-5 for x, y in zip(a, b))
    c.check("every value once, in order", close(vl.values, sent))
    c.check("values are detached tensors of at least one dimension", all(isinstance(x, torch.Tensor) and x.dim() > 0 and not x.requires_grad for x in vl.values))
    c.check("an observer of several values gets each of them once", close([v for k, v in pr.seen if k == "loss"], sent) and [v for k, v in pr.seen if k == "note"] == notes)
    c.same("the end of every epoch", ends, list(range(epochs)))
    for j in range(2):
        c.check("aggregated in groups of the interval, the rest at the end of the epoch", len(logs[j].seen) == len(groups[j]) and all(close(a, b) for a, b in zip(logs[j].seen, groups[j])))
    names = ["A", "B"]
    ac, rv = agg.ActionCountAggregator("action", names), agg.RecentValuesAggregator("loss", size=5)
    raw = []
    for _ in range(rng.randint(1, 4)):
        xs = [[rng.randint(0, 1) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 2))]
        c.call("count", ac, "action", [torch.tensor(x) for x in xs])
        c.call("recent", rv, "loss", [torch.tensor(x).float() for x in xs])
        raw.append([y for x in xs for y in x])
    d = c.call("distributions", ac.get_distributions)
    c.check("share of each action per step", all(abs(d[nm][i] - r.count(a) / len(r)) < 1e-6 for a, nm in enumerate(names) for i, r in enumerate(raw)))
    d = c.call("cumulative", ac.get_cumulative_distributions)
    al = [y for r in raw for y in r]
    c.check("share of each action overall", all(abs(d[nm] - al.count(a) / len(al)) < 1e-6 for a, nm in enumerate(names)))
    c.same("the latest values", list(rv.values), [float(y) for y in al[-5:]])


@contract("P40", "reporters", under=["reagent/workflow/reporters/reporter_base.py:ReporterBase.log", "reagent/workflow/reporters/reporter_base.py:ReporterBase.flush", "reagent/workflow/reporters/reporter_base.py:FlexibleDataPointsPerEpochMixin.flush", "reagent/workflow/reporters/discrete_dqn_reporter.py:DiscreteDQNReporter.__init__"], bounded=True, quick=40, bound="up to 12 batches of 2 rows over 2 epochs")
def reporters(c):
    from reagent.workflow.reporters.discrete_dqn_reporter import DiscreteDQNReporter
    from reagent.tensorboardX import SummaryWriterContext
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    every = c.choice("interval", [1, 2, 3])
    SummaryWriterContext._custom_scalars = {}
    r = c.call("construct", DiscreteDQNReporter, ["A", "B"], every)
    try:
        want = []
        rew, acts = [], []
        for ep in range(2):
            part = []
            n = int(c.int(f"batches{ep}", 1, 6))
            for b in range(n):
                td = rng.uniform(0, 3)
                lr = [[rng.uniform(-1, 1)], [rng.uniform(-1, 1)]]
                la = [rng.randint(0, 1) for _ in range(2)]
                mv = [[rng.uniform(-1, 1), rng.uniform(-1, 1)] for _ in range(2)]
                part.append((td, la, mv))
                rew += [x for q in lr for x in q]
                c.call("log", r.log, td_loss=torch.tensor(td, requires_grad=True), logged_rewards=torch.tensor(lr), logged_actions=torch.tensor(la).reshape(-1, 1), model_values=torch.tensor(mv), reward_loss=torch.tensor(td))
            c.call("end of epoch", r.flush, ep)
            for i in range(0, n, every):
                want.append(part[i:i + every])
            c.same("points of this epoch", (r.num_data_points_per_epoch, r.last_epoch_end_num_batches), (-(-n // every), len(want)))
        mean = lambda xs: sum(xs) / len(xs)
        near = lambda a, b: len(a) == len(b) and all(abs(x - y) < 1e-4 for x, y in zip(a, b))
        c.check("mean loss per interval", near(r.td_loss.values, [mean([p[0] for p in g]) for g in want]))
        c.check("action counts per interval", all(r.logged_action.values[nm] == [sum(p[1].count(a) for p in g) for g in want] for a, nm in enumerate("AB")))
        c.check("model values by action per interval", all(near(r.model_values.values["mean"][nm], [mean([row[a] for p in g for row in p[2]]) for g in want]) for a, nm in enumerate("AB")))
        c.check("latest rewards", near(list(r.recent_rewards.values), rew))
    finally:
        SummaryWriterContext._custom_scalars = {}


W_ = "reagent/tensorboardX.py:"


@contract("P40", "summaries and their writers", under=[W_ + x for x in ("SummaryWriterContextMeta.__getattr__", "SummaryWriterContext.push", "SummaryWriterContext.pop", "SummaryWriterContext.increase_global_step", "SummaryWriterContext._reset_globals", "SummaryWriterContext.add_histogram", "SummaryWriterContext.add_custom_scalars", "SummaryWriterContext.add_custom_scalars_multilinechart", "summary_writer_context")], bounded=True, quick=60, bound="up to 16 writes in contexts up to 3 deep")
def writers(c):
    from reagent import tensorboardX as tb
    S = tb.SummaryWriterContext
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))

    class W(tb.SummaryWriter):
        def __init__(self, fails):
            self.got, self.fails = [], fails
            if fails == "ignored":
                self.exceptions_to_ignore = (NotImplementedError, KeyError)
                self.seen = []
                self.exception_logging_func = self.seen.append

        def take(self, kind, *a, global_step=None, **k):
            if self.fails:
                raise KeyError(kind)
            self.got.append((kind, a, global_step, k))

        def add_scalar(self, *a, **k):
            self.take("scalar", *a, **k)

        def add_histogram(self, key, val, *a, **k):
            if val is None:
                raise ValueError("empty")
            self.take("histogram", key, val, *a, **k)

        def add_custom_scalars(self, layout):
            self.layout = layout

    before = (list(S._writer_stacks), S._global_step, S._custom_scalars)
    try:
        c.call("reset", S._reset_globals)
        step, stack, all_, want = 0, [], [], {}
        left = [int(c.int("writes", 1, 16))]

        def write():
            nonlocal step
            kind = rng.choice(["scalar", "histogram", "step", "empty"])
            top = stack[-1] if stack else None
            if kind == "step":
                c.call("step", S.increase_global_step)
                step += 1
                return
            if kind == "empty":
                c.call("histogram of nothing", S.add_histogram, "k", None)
                return
            k = {"global_step": rng.randint(50, 60)} if rng.random() < 0.3 else {}
            a = (rng.choice("xyz"), rng.random())
            f = getattr(S, "add_" + kind)
            if top is not None and top.fails == "raised":
                try:
                    f(*a, **k)
                    c.check("a failing write is reported", False)
                except KeyError:
                    pass
                return
            f(*a, **k)
            if top is not None and top.fails:
                want[id(top), "ignored"] = want.get((id(top), "ignored"), 0) + 1
            elif top is not None:
                want.setdefault(id(top), []).append((kind, a, k.get("global_step", step), {}))

        def inside(depth):
            while left[0] > 0:
                left[0] -= 1
                r = rng.random()
                if r < 0.25 and depth < 3:
                    w = W(rng.choice([None, None, "ignored", "raised"])) if rng.random() < 0.85 else None
                    if w is not None:
                        all_.append(w)
                        stack.append(w)
                    broken = rng.random() < 0.3
                    try:
                        with tb.summary_writer_context(w):
                            inside(depth + 1)
                            if broken:
                                raise ZeroDivisionError
                        c.check("errors leave the context", not broken)
                    except ZeroDivisionError:
                        c.check("only its own errors", broken)
                    if w is not None:
                        stack.pop()
                elif r < 0.35 and depth:
                    return
                else:
                    write()
        inside(0)
        c.check("contexts end with their writers", S._writer_stacks == before[0])
        for w in all_:
            c.check("each write reaches the innermost writer once, at its step", w.got == want.get(id(w), []))
            if w.fails == "ignored":
                c.same("ignored errors are handed over", len(w.seen), want.get((id(w), "ignored"), 0))
        charts = {}
        for q in range(int(c.int("charts", 0, 3))):
            cat, title, tags = rng.choice("ab"), f"t{q}", [f"m{q}", "n"]
            c.call("chart", S.add_custom_scalars_multilinechart, tags, category=cat, title=title)
            charts.setdefault(cat, {})[title] = ["Multiline", tags]
        w = W(None)
        c.call("layout", S.add_custom_scalars, w)
        c.same("every chart, in its category", w.layout, charts)
    finally:
        S._writer_stacks[:], S._global_step, S._custom_scalars = before


@contract("P40", "reporters of epochs of one length", under=["reagent/workflow/reporters/reporter_base.py:DataPointsPerEpochMixin.flush", "reagent/workflow/reporters/reporter_base.py:ReporterBase.__getattr__", "reagent/workflow/reporters/reporter_base.py:ReporterBase.__init__"], bounded=True, quick=40, bound="up to 3 epochs of up to 6 batches")
def same_length(c):
    from reagent.workflow.reporters import reporter_base as rb

    class Rep(rb.DataPointsPerEpochMixin, rb.ReporterBase):
        def generate_training_report(self):
            return None
    every = c.choice("interval", [1, 2, 3])
    lst = obs.ValueListObserver("note")
    r = c.call("construct", Rep, {"notes": lst}, {"td_loss": obs.IntervalAggregatingObserver(every, agg.MeanAggregator("td_loss"))})
    want, first, k = [], None, 0
    for ep in range(int(c.int("epochs", 1, 3))):
        n = int(c.int(f"batches{ep}", 1, 6))
        vs = [float(k + i) for i in range(n)]
        k += n
        for v in vs:
            c.call("log", r.log, td_loss=torch.tensor([v]), note=v)
        new = [sum(vs[i:i + every]) / len(vs[i:i + every]) for i in range(0, n, every)]
        first = len(new) if first is None else first
        try:
            r.flush(ep)
            ok = True
        except AssertionError:
            ok = False
        want += new
        c.check("epochs of another length are refused", ok == (len(new) == first))
        c.check("every epoch's values are aggregated to its end", all(abs(float(a) - b) < 1e-4 for a, b in zip(r.td_loss.values, want)) and len(r.td_loss.values) == len(want))
        c.same("values listed as reported", [float(x) for x in r.notes.values], [float(i) for i in range(k)])
        if not ok:
            break
    c.check("an unknown part is none of the reporter's", not hasattr(r, "nothing of the kind"))


L_ = "reagent/training/reagent_lightning_module.py:"


@contract("P40", "epochs of a training module", under=[L_ + "ReAgentLightningModule.training_epoch_end", L_ + "ReAgentLightningModule.increase_next_stopping_epochs", L_ + "ReAgentLightningModule.set_reporter", L_ + "ReAgentLightningModule.summary_writer", L_ + "ReAgentLightningModule._setup_input_type", L_ + "ReAgentLightningModule.training_step", L_ + "StoppingEpochCallback.on_pretrain_routine_end"], bounded=True, quick=60, bound="up to 4 runs of up to 4 epochs, each cleanly stopped or interrupted")
def epochs(c):
    import pytorch_lightning as pl
    from reagent.training.reagent_lightning_module import ReAgentLightningModule, StoppingEpochCallback

    class M(ReAgentLightningModule):
        def configure_optimizers(self):
            return [None]

        def train_step_gen(self, training_batch: rlt.DiscreteDqnInput, batch_idx: int):
            seen.append((training_batch, batch_idx))
            yield batch_idx

    class Free(ReAgentLightningModule):
        def configure_optimizers(self):
            return [None]

        def train_step_gen(self, training_batch, batch_idx: int):
            seen.append((training_batch, batch_idx))
            yield batch_idx
    seen, flushed = [], []
    m = c.call("construct", M)
    m.trainer = tr = SimpleNamespace(current_epoch=0, should_stop=False, logger=None)
    r = SimpleNamespace(flush=flushed.append)
    c.check("set_reporter hands back the module", m.set_reporter(r) is m and m.reporter is r)
    epoch, stop, clean, done = 0, -1, True, []
    for run in range(int(c.int("runs", 1, 4))):
        n = int(c.int(f"epochs{run}", 1, 4))
        c.call("start", StoppingEpochCallback(n).on_pretrain_routine_end, tr, m)
        if clean:
            stop += n
        tr.should_stop, clean = False, False
        broken = c.choice(f"interrupted{run}", [False, False, True])
        while True:
            tr.current_epoch = epoch
            c.call("epoch end", m.training_epoch_end, [])
            done.append(epoch)
            epoch += 1
            c.same("stops at the end of the last epoch asked for, not before", tr.should_stop, epoch - 1 == stop)
            if tr.should_stop:
                m._cleanly_stopped[0] = clean = True  # as saving the trainer does
                break
            if broken:
                break
            if epoch > stop + 2:
                break
        m2 = M()
        m2.load_state_dict(m.state_dict())
        m2.trainer = tr
        m = m2.set_reporter(r)  # resumed from a checkpoint
    c.same("the reporter is flushed at the end of every epoch", flushed, done)
    # batches given as columns become the declared type, others pass
    z = torch.zeros(1, 1)
    cols = dict(state_features=z + 1, next_state_features=z + 2, reward=z + 3, time_diff=z, not_terminal=z + 1, action=z + 4, next_action=z + 5, possible_actions_mask=z, possible_next_actions_mask=z, extras=rlt.ExtraData())
    c.call("step", m.training_step, cols, 3, 0)
    b, i = seen.pop()
    c.check("columns become the declared type of batch", isinstance(b, rlt.DiscreteDqnInput) and float(b.state.float_features) == 1 and float(b.reward) == 3 and float(b.next_action) == 5 and i == 3)
    c.call("step", m.training_step, b, 4, 0)
    c.check("a batch passes as it is", seen.pop()[0] is b)
    f = Free()
    f.trainer = tr
    c.call("step", f.training_step, cols, 0, 0)
    c.check("so do columns when no type is declared", seen.pop()[0] is cols)
    # the summary writer is that of the TensorBoard logger
    tb = pl.loggers.tensorboard.TensorBoardLogger.__new__(pl.loggers.tensorboard.TensorBoardLogger)
    other = pl.loggers.tensorboard.TensorBoardLogger.__new__(pl.loggers.tensorboard.TensorBoardLogger)
    w, w2 = object(), object()
    tb._experiment, other._experiment = w, w2
    plain = pl.loggers.base.DummyLogger() if hasattr(pl.loggers.base, "DummyLogger") else None
    old = pl.loggers.tensorboard.TensorBoardLogger.experiment
    pl.loggers.tensorboard.TensorBoardLogger.experiment = property(lambda self: self._experiment)
    try:
        for lg, want in c.choice("loggers", [[(None, None), (tb, w), (other, w2), (None, None)], [(tb, w), (None, None)], [(pl.loggers.base.LoggerCollection([x for x in (plain, tb) if x is not None]), w), (other, w2)]]):
            m.logger = lg
            for _ in range(2):
                c.check("the summary writer is that of the current TensorBoard logger", c.call("summary writer", lambda: m.summary_writer) is want)
    finally:
        pl.loggers.tensorboard.TensorBoardLogger.experiment = old
