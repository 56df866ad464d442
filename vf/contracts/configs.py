"""P42: configurations select and build what they say."""
import abc
import dataclasses
import json
import random
from types import SimpleNamespace
from typing import Dict, List, Optional

import reagent.types as rlt
import torch
from vf.contracts._common import *
from vf.runner import contract

C_ = "reagent/core/"
B_ = "reagent/net_builder/"


def picks(rng, space):
    return {k: rng.choice(v) for k, v in space.items() if rng.random() < 0.7}


OPT = {
    "Adam": dict(lr=[0.1, 0.5], betas=[(0.5, 0.9), (0.8, 0.99)], eps=[1e-3], weight_decay=[0.0, 0.3], amsgrad=[True, False]),
    "SGD": dict(lr=[0.1, 0.5], momentum=[0.0, 0.4], weight_decay=[0.0, 0.3], dampening=[0.0, 0.2]),
    "AdamW": dict(lr=[0.1, 0.5], betas=[(0.5, 0.9)], eps=[1e-3], weight_decay=[0.0, 0.3], amsgrad=[True, False]),
    "RMSprop": dict(lr=[0.1, 0.5], alpha=[0.5], eps=[1e-3], weight_decay=[0.0, 0.3], momentum=[0.0, 0.4], centered=[True, False]),
    "Adagrad": dict(lr=[0.1, 0.5], lr_decay=[0.0, 0.2], weight_decay=[0.0, 0.3], eps=[1e-3]),
    "Adadelta": dict(lr=[0.1, 0.5], rho=[0.5], eps=[1e-3], weight_decay=[0.0, 0.3]),
    "Rprop": dict(lr=[0.1, 0.5], etas=[(0.4, 1.5)], step_sizes=[(1e-4, 5.0)]),
}
DEF = {
    "Adam": dict(lr=0.001, betas=(0.9, 0.999), eps=1e-8, weight_decay=0, amsgrad=False),
    "SGD": dict(lr=0.001, momentum=0.0, weight_decay=0.0, dampening=0.0, nesterov=False),
    "AdamW": dict(lr=0.001, betas=(0.9, 0.999), eps=1e-8, weight_decay=0.01, amsgrad=False),
    "RMSprop": {}, "Adagrad": {}, "Adadelta": {},
    "Rprop": dict(lr=0.01, etas=(0.5, 1.2), step_sizes=(1e-6, 50)),
}


@contract("P42", "optimisers", under=["reagent/optimizer/optimizer.py:OptimizerConfig.make_optimizer", "reagent/optimizer/optimizer.py:Optimizer.step", "reagent/optimizer/union.py:Optimizer__Union.default", "reagent/optimizer/union.py:Optimizer__Union.make_optimizer"], bounded=True, quick=100, bound="7 optimisers, up to 4 steps and 3 schedules")
def optimisers(c):
    from reagent.optimizer.optimizer import Optimizer
    from reagent.optimizer.union import Optimizer__Union, classes
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    name = c.choice("optimizer", sorted(OPT))
    kw = picks(rng, OPT[name])
    form = c.choice("form", ["config", "dictionary", "default"])
    if form == "default":
        name = "Adam"
        kw = picks(rng, OPT[name])
        u = c.call("default", Optimizer__Union.default, **kw)
    elif form == "dictionary":
        @dataclasses.dataclass
        class _:
            pass
        u = c.call("parse", Optimizer__Union, **{name: dict(kw)})
    else:
        u = c.call("select", Optimizer__Union, **{name: classes[name](**kw)})
    g = torch.Generator().manual_seed(rng.randint(0, 999))
    mk = lambda: [torch.nn.Parameter(x.clone()) for x in (p0, p1)]
    p0, p1 = torch.randn(3, generator=g), torch.randn(2, 2, generator=g)
    mine, ref = mk(), mk()
    other = torch.nn.Parameter(torch.ones(2))
    o = c.call("make", u.make_optimizer, iter(mine))
    args = dict(DEF[name], **kw)
    r = getattr(torch.optim, name)(ref, **args)
    log = []
    scheds = [SimpleNamespace(step=lambda i=i: log.append((i, [float(p.detach().sum()) for p in mine]))) for i in range(c.choice("schedules", [0, 1, 3]))]
    c.same("no schedule unless configured", list(o.lr_schedulers), [])
    o.lr_schedulers.extend(scheds)
    for _ in range(rng.randint(1, 4)):
        gs = [torch.randn(p.shape, generator=g) for p in mine]
        for p, q, x in zip(mine, ref, gs):
            p.grad, q.grad = x.clone(), x.clone()
        before = [p.detach().clone() for p in mine]
        if rng.random() < 0.3:
            cl = []
            c.call("step with a closure", o.step, lambda: cl.append(1) or torch.tensor(0.0))
            c.same("the closure is evaluated once", len(cl), 1)
        else:
            c.call("step", o.step)
        r.step()
        c.check("the configured optimiser's step, on exactly the given parameters", all(c.close(p, q, atol=1e-6) for p, q in zip(mine, ref)) and torch.equal(other, torch.ones(2)))
        c.check("then every schedule once, in order", [i for i, _ in log] == list(range(len(scheds))) and all(abs(a - float(p.detach().sum())) < 1e-6 for _, s in log for a, p in zip(s, mine)))
        log.clear()
        c.call("zero", o.zero_grad)
        c.check("gradients are cleared", all(p.grad is None or not p.grad.any() for p in mine))


@contract("P42", "unions and registries", under=[C_ + "registry_meta.py:RegistryMeta.__init__", C_ + "registry_meta.py:RegistryMeta.fill_union", C_ + "tagged_union.py:TaggedUnion.value"], bounded=True, quick=60, bound="up to 5 registered classes")
def unions(c):
    from reagent.core.dataclasses import dataclass
    from reagent.core.registry_meta import RegistryMeta
    from reagent.core.tagged_union import TaggedUnion
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))

    def make():
        class Base(metaclass=RegistryMeta):
            @abc.abstractmethod
            def what(self):
                pass

        class Middle(Base):
            @abc.abstractmethod
            def more(self):
                pass
        return Base, Middle
    Base, Middle = c.call("base", make)
    Other, _ = c.call("another base", make)
    n = int(c.int("classes", 1, 5))
    cls, keys = [], []
    for i in range(n):
        ns = {"what": lambda self: self.x, "more": lambda self: 0, "__annotations__": {"x": int}, "x": i}
        key = f"K{i}"
        if rng.random() < 0.4:
            ns["__registry_name__"] = key = f"named{i}"
        parent = rng.choice([Base, Middle])
        k = dataclass(c.call("register", RegistryMeta, f"K{i}", (parent,), ns))
        cls.append(k)
        keys.append(key)
    c.same("every complete class under its name", list(Base.REGISTRY), keys)
    c.check("registries are apart", Other.REGISTRY == {} and Other.REGISTRY is not Base.REGISTRY)
    try:
        RegistryMeta("K0", (Base,), {"what": lambda self: 0, "__registry_name__": keys[0]})
        c.check("a name is given once", False)
    except AssertionError:
        pass

    class U(TaggedUnion):
        pass
    U = c.call("fill", Base.fill_union(), U)
    c.same("one optional choice per registered class", [f.name for f in dataclasses.fields(U)], keys)
    try:
        RegistryMeta("Late", (Base,), {"what": lambda self: 0})
        c.check("nothing is registered after the union was filled", False)
    except AssertionError:
        pass
    i = rng.randrange(n)
    x = rng.randint(0, 3)
    inst = cls[i](x=x)
    for u in (c.call("select", U, **{keys[i]: inst}), c.call("wrap", U.make_union_instance, inst), c.call("parse", U, **{keys[i]: {"x": x}})):
        v = u.value
        c.check("the selected configuration", type(v) is cls[i] and v.what() == x)
        c.check("and no other", all(getattr(u, k) is None for k in keys if k != keys[i]))
    bad = [{}] + ([{keys[0]: cls[0](), keys[1]: cls[1]()}] if n > 1 else [])
    for b in bad:
        try:
            U(**b).value
            c.check("exactly one must be selected", False)
        except AssertionError:
            pass


@contract("P42", "configurations of a constructor", under=[C_ + "configuration.py:" + x for x in ("make_config_class", "resolve_defaults", "param_hash", "_resolve_default", "_hash_field", "_get_param_annotation")] + ["reagent/json_serialize.py:object_to_json", "reagent/json_serialize.py:json_to_object"], bounded=True, quick=60, bound="constructors with 6 parameters")
def constructors(c):
    from reagent.core.configuration import make_config_class, param_hash, resolve_defaults
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    F = dataclasses.field
    calls = []

    def init(net: torch.nn.Module, opt: Optional[torch.nn.Module], a: int, b=2.5, d: List[int] = F(default_factory=lambda: [1, 2]), e: Dict[str, int] = F(default_factory=dict), s: Optional[str] = None):
        calls.append((net, opt, a, b, d, e, s))
    f = c.call("decorate", resolve_defaults, init)
    full = {"a": rng.randint(0, 9), "b": rng.uniform(0, 1), "d": [rng.randint(0, 3)], "e": {"k": 1}, "s": "x"}
    kw = {k: v for k, v in full.items() if k == "a" or rng.random() < 0.5}
    pos = rng.random() < 0.5
    if pos:
        f("n", "o", kw["a"], **{k: v for k, v in kw.items() if k != "a"})
    else:
        f(net="n", opt="o", **kw)
    want = {"b": 2.5, "d": [1, 2], "e": {}, "s": None, **kw}
    c.same("given arguments as given, others by default", calls[-1], ("n", "o", want["a"], want["b"], want["d"], want["e"], want["s"]))
    f("n", "o", 1)
    f("n", "o", 1)
    c.check("default values are not shared", calls[-1][4] is not calls[-2][4] and calls[-1][5] is not calls[-2][5])
    try:
        f("n", "o", 1, 2, [3], {}, "s", "too many")
        c.check("too many arguments are refused", False)
    except (ValueError, TypeError):
        pass
    how = c.choice("fields", ["all", "blacklist", "whitelist"])
    opts = {"all": {}, "blacklist": dict(blacklist=["b", "s"]), "whitelist": dict(whitelist=["a", "d"])}[how]
    names = {"all": ["a", "b", "d", "e", "s"], "blacklist": ["a", "d", "e"], "whitelist": ["a", "d"]}[how]

    class P:
        pass
    P = c.call("configuration class", make_config_class(f, **opts), P)
    c.same("a field per configurable parameter", [x.name for x in dataclasses.fields(P)], names)
    sel = {k: v for k, v in kw.items() if k in names}
    p = c.call("configure", P, **sel)
    exp = {k: v for k, v in {**want, **{k: full[k] for k in ()}}.items() if k in names}
    c.same("configured and default values", p.asdict(), {k: sel.get(k, {"b": 2.5, "d": [1, 2], "e": {}, "s": None}.get(k)) for k in names})
    calls.clear()
    f("n", "o", **p.asdict())
    c.same("the constructor receives them", calls[-1], ("n", "o", *[{"b": 2.5, "d": [1, 2], "e": {}, "s": None, **sel}[k] for k in ("a", "b", "d", "e", "s")]))
    q = P(**{k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in sel.items()})
    c.check("equal configurations are equal and hash alike", p == q and hash(p) == hash(q))
    try:
        p.a = 3
        c.check("configurations do not change", False)
    except (dataclasses.FrozenInstanceError, AttributeError, TypeError):
        pass
    from reagent import parameters as rp
    from reagent.json_serialize import json_to_object, object_to_json
    o = lambda v: v if rng.random() < 0.6 else None
    np_ = {i: rp.NormalizationParameters(feature_type=rng.choice(["CONTINUOUS", "ENUM", "QUANTILE"]), mean=o(rng.uniform(-2, 2)), stddev=o(0.5), boxcox_lambda=o(1.5), boxcox_shift=o(0.0), possible_values=o([3, 1, 2]), quantiles=o([0.0, 0.5]), min_value=o(0.0), max_value=o(1.0)) for i in rng.sample(range(99), rng.randint(0, 3))}
    n = rp.NormalizationData(dense_normalization_parameters=np_)
    for x in [n, *np_.values(), rp.RLParameters(gamma=rng.uniform(0, 1), reward_boost=o({"a": 1.5}), multi_steps=o(3))]:
        j = c.call("write", object_to_json, x)
        c.check("what is written reads back the same", isinstance(j, str) and c.call("read", json_to_object, j, type(x)) == x)


@dataclasses.dataclass
class Leaf:
    n: int = 0
    tags: List[str] = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Tree:
    leaf: Leaf
    maybe: Optional[Leaf] = None
    row: List[Leaf] = dataclasses.field(default_factory=list)
    named: Dict[str, Leaf] = dataclasses.field(default_factory=dict)
    rows: Optional[List[Leaf]] = None
    x: float = 0.5
    text: Optional[str] = None


@contract("P42", "objects within objects, as JSON", under=["reagent/json_serialize.py:" + x for x in ("object_to_json", "json_to_object", "prepare_for_json", "from_json")], bounded=True, quick=60, bound="2 levels, up to 3 of each")
def nested_json(c):
    from reagent.json_serialize import json_to_object, object_to_json
    leaf = lambda k: Leaf(n=c.int(f"n{k}", -3, 3), tags=["t%d" % i for i in range(c.int(f"tags{k}", 0, 2))])
    t = Tree(leaf=leaf("a"), maybe=c.choice("maybe", [None, True]) and leaf("b"), row=[leaf(f"r{i}") for i in range(c.int("row", 0, 3))],
             named={f"k{i}": leaf(f"d{i}") for i in range(c.int("named", 0, 3))}, rows=c.choice("rows", [None, True]) and [leaf(f"s{i}") for i in range(c.int("in rows", 0, 2))],
             x=c.int("x", -4, 4) / 4, text=c.choice("text", [None, "", "a \"b\""]))
    j = c.call("write", object_to_json, t)
    c.check("what is written is JSON", isinstance(j, str) and json.loads(j) == dataclasses.asdict(t))
    back = c.call("read", json_to_object, j, Tree)
    c.check("what is written reads back the same, down to the types within", back == t and type(back) is Tree)
    raw = dataclasses.asdict(t)
    raw["unheard of"] = 1
    try:
        json_to_object(json.dumps(raw), Tree)
        c.check("items the type does not have are refused", False)
    except AssertionError:
        pass


@contract("P42", "feature configurations", under=["reagent/types.py:" + x for x in ("ModelFeatureConfig.__post_init_post_parse__", "ModelFeatureConfig.only_dense", "ModelFeatureConfig.id2name", "ModelFeatureConfig.name2id", "ModelFeatureConfig.id2config", "ModelFeatureConfig.name2config", "IdMapping.id2index", "IdMapping.table_size")], bounded=True, quick=60, bound="up to 3 features of each kind, 4 ids")
def features(c):
    ids = [c.int(f"id{i}", 0, 30) for i in range(c.int("lists", 0, 3) + c.int("scored lists", 0, 3))]
    k = min(len(ids), 3)
    names = [f"n{c.int(f'name{i}', 0, 30)}" for i in range(len(ids))]
    a = [rlt.IdListFeatureConfig(name=n, feature_id=i, id_mapping_name="t") for n, i in zip(names[:k], ids[:k])]
    b = [rlt.IdScoreListFeatureConfig(name=n, feature_id=i, id_mapping_name="u") for n, i in zip(names[k:], ids[k:])]
    clash = len(set(ids)) < len(ids) or len(set(names)) < len(names)
    try:
        m = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(feature_id=1, name="f")], id_list_feature_configs=a, id_score_list_feature_configs=b)
        c.check("ids and names are used once", not clash)
    except AssertionError:
        c.check("only clashes are refused", clash)
        return
    both = a + b
    c.same("dense only", bool(m.only_dense), not both)
    c.same("names by id", dict(m.id2name), {x.feature_id: x.name for x in both})
    c.same("ids by name", dict(m.name2id), {x.name: x.feature_id for x in both})
    c.check("configurations by id and name", m.id2config == {x.feature_id: x for x in both} and m.name2config == {x.name: x for x in both})
    vals = [7 * c.int(f"v{j}", 0, 3) + 31 * ((3 * j + 1) % 4) for j in range(c.int("values", 0, 4))]
    mp = rlt.IdMapping(ids=vals)
    c.same("rows of the table", (dict(mp.id2index), mp.table_size), ({v: j for j, v in enumerate(vals)}, len(vals)))


def norm(rng):
    from reagent.parameters import NormalizationData, NormalizationParameters
    d, n = {}, 0
    for i in rng.sample(range(50), rng.randint(1, 3)):
        if rng.random() < 0.4:
            k = rng.randint(2, 3)
            d[i] = NormalizationParameters(feature_type="ENUM", possible_values=list(range(k)))
            n += k
        else:
            d[i] = NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0)
            n += 1
    return NormalizationData(dense_normalization_parameters=d), n


@contract("P42", "networks", under=[B_ + x for x in ("discrete_dqn/fully_connected.py:FullyConnected.build_q_network", "discrete_dqn/dueling.py:Dueling.build_q_network", "discrete_dqn/fully_connected_with_embedding.py:FullyConnectedWithEmbedding.build_q_network", "categorical_dqn/categorical.py:Categorical.build_q_network", "quantile_dqn/quantile.py:Quantile.build_q_network", "quantile_dqn/dueling_quantile.py:DuelingQuantile.build_q_network", "parametric_dqn/fully_connected.py:FullyConnected.build_q_network", "value/fully_connected.py:FullyConnected.build_value_network", "value/seq2reward_rnn.py:Seq2RewardNetBuilder.build_value_network", "continuous_actor/fully_connected.py:FullyConnected.build_actor", "continuous_actor/gaussian_fully_connected.py:GaussianFullyConnected.build_actor", "continuous_actor/dirichlet_fully_connected.py:DirichletFullyConnected.build_actor", "discrete_actor/fully_connected.py:FullyConnected.build_actor")], bounded=True, quick=120, bound="13 builders; up to 2 layers of up to 6 units")
def builders(c):
    import reagent.models as models
    from reagent.models.actor import DirichletFullyConnectedActor, FullyConnectedActor, GaussianFullyConnectedActor
    from reagent.models.categorical_dqn import CategoricalDQN
    from reagent.models.critic import FullyConnectedCritic
    from reagent.models.dqn import FullyConnectedDQN
    from reagent.models.dueling_q_network import DuelingQNetwork
    from reagent.models.fully_connected_network import FullyConnectedNetwork
    from reagent.models.seq2reward_model import Seq2RewardNetwork
    from reagent.net_builder import categorical_dqn, continuous_actor, discrete_actor, discrete_dqn, parametric_dqn, quantile_dqn, value
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    torch.manual_seed(rng.randint(0, 9999))
    L = rng.randint(1, 2)
    sizes, acts = [rng.choice([2, 4, 6]) for _ in range(L)], [rng.choice(["relu", "tanh", "sigmoid", "leaky_relu"]) for _ in range(L)]
    sn, S = norm(rng)
    an, A = norm(rng)
    n, atoms = rng.randint(1, 3), rng.randint(2, 4)
    bn, ln, dr, l2 = (rng.random() < 0.5 for _ in range(4))
    dr = 0.3 if dr else 0.0
    aact, var = rng.choice(["tanh", "sigmoid"]), rng.choice([None, 0.5])
    base = dict(sizes=sizes, activations=acts)
    cfg = rlt.ModelFeatureConfig(float_feature_infos=[])
    x, y = rlt.FeatureData(torch.randn(4, S)), rlt.FeatureData(torch.randn(4, A))
    kind = c.choice("builder", ["dqn", "dueling", "embedding", "categorical", "quantile", "dueling quantile", "parametric", "value", "seq2reward", "actor", "gaussian", "dirichlet", "discrete actor"])
    inp = (x,)
    if kind == "dqn":
        net = c.call("build", discrete_dqn.fully_connected.FullyConnected(**base, dropout_ratio=dr, use_batch_norm=bn).build_q_network, cfg, sn, n)
        ref = FullyConnectedDQN(state_dim=S, action_dim=n, **base, dropout_ratio=dr, use_batch_norm=bn)
    elif kind == "dueling":
        net = c.call("build", discrete_dqn.dueling.Dueling(**base).build_q_network, cfg, sn, n)
        ref = DuelingQNetwork.make_fully_connected(S, n, sizes, acts)
    elif kind == "embedding":
        cfg = rlt.ModelFeatureConfig(float_feature_infos=[], id_mapping_config={"t": rlt.IdMapping(ids=[5, 6, 7])}, id_list_feature_configs=[rlt.IdListFeatureConfig(name="l", feature_id=1, id_mapping_name="t")])
        e = rng.randint(1, 3)
        net = c.call("build", discrete_dqn.fully_connected_with_embedding.FullyConnectedWithEmbedding(**base, embedding_dim=e, dropout_ratio=dr).build_q_network, cfg, sn, n)
        emb = models.EmbeddingBagConcat(state_dim=S, model_feature_config=cfg, embedding_dim=e)
        ref = models.Sequential(emb, rlt.TensorFeatureData(), FullyConnectedDQN(S + e, action_dim=n, **base, dropout_ratio=dr))
        inp = (rlt.FeatureData(torch.randn(4, S), id_list_features={"l": (torch.tensor([0, 1, 1, 3]), torch.tensor([0, 2, 1, 1]))}, id_score_list_features={}),)
    elif kind == "categorical":
        net = c.call("build", categorical_dqn.categorical.Categorical(**base).build_q_network, sn, n, atoms, -3, 5)
        ref = CategoricalDQN(FullyConnectedDQN(state_dim=S, action_dim=n, num_atoms=atoms, **base), qmin=-3, qmax=5, num_atoms=atoms)
    elif kind == "quantile":
        net = c.call("build", quantile_dqn.quantile.Quantile(**base, dropout_ratio=dr).build_q_network, sn, n, atoms)
        ref = FullyConnectedDQN(state_dim=S, action_dim=n, num_atoms=atoms, **base, dropout_ratio=dr)
    elif kind == "dueling quantile":
        net = c.call("build", quantile_dqn.dueling_quantile.DuelingQuantile(**base).build_q_network, sn, n, atoms)
        ref = DuelingQNetwork.make_fully_connected(S, n, sizes, acts, num_atoms=atoms)
    elif kind == "parametric":
        net = c.call("build", parametric_dqn.fully_connected.FullyConnected(**base, use_batch_norm=bn, use_layer_norm=ln).build_q_network, sn, an, n)
        ref, inp = FullyConnectedCritic(state_dim=S, action_dim=A, **base, use_batch_norm=bn, use_layer_norm=ln, output_dim=n), (x, y)
    elif kind == "value":
        net = c.call("build", value.fully_connected.FullyConnected(**base, use_layer_norm=ln).build_value_network, sn, n)
        ref, inp = FullyConnectedNetwork([S] + sizes + [n], acts + ["linear"], use_layer_norm=ln), (x.float_features,)
    elif kind == "seq2reward":
        net = c.call("build", value.seq2reward_rnn.Seq2RewardNetBuilder(action_dim=A, num_hiddens=3, num_hidden_layers=L).build_value_network, sn)
        ref = Seq2RewardNetwork(state_dim=S, action_dim=A, num_hiddens=3, num_hidden_layers=L)
        inp = (rlt.FeatureData(torch.randn(2, 4, S)), rlt.FeatureData(torch.randn(2, 4, A)))
    elif kind == "actor":
        net = c.call("build", continuous_actor.fully_connected.FullyConnected(**base, use_batch_norm=bn, use_layer_norm=ln, action_activation=aact, exploration_variance=var).build_actor, sn, an)
        ref = FullyConnectedNetwork([S] + sizes + [A], acts + [aact], use_batch_norm=bn, use_layer_norm=ln)
    elif kind == "discrete actor":
        net = c.call("build", discrete_actor.fully_connected.FullyConnected(**base, use_batch_norm=bn, use_layer_norm=ln, action_activation=aact, exploration_variance=var).build_actor, sn, n)
        ref = FullyConnectedNetwork([S] + sizes + [n], acts + [aact], use_batch_norm=bn, use_layer_norm=ln)
    elif kind == "gaussian":
        net = c.call("build", continuous_actor.gaussian_fully_connected.GaussianFullyConnected(**base, use_batch_norm=bn, use_layer_norm=ln, use_l2_normalization=l2).build_actor, sn, an)
        ref = GaussianFullyConnectedActor(state_dim=S, action_dim=A, **base, use_batch_norm=bn, use_layer_norm=ln, use_l2_normalization=l2)
    else:
        net = c.call("build", continuous_actor.dirichlet_fully_connected.DirichletFullyConnected(**base, use_batch_norm=bn).build_actor, sn, an)
        ref = DirichletFullyConnectedActor(state_dim=S, action_dim=A, **base, use_batch_norm=bn)
    with torch.no_grad():
        for p in net.parameters():
            p.add_(torch.randn_like(p) * 0.3)
    mine, theirs = list(net.state_dict().values()), list(ref.state_dict().values())
    c.same("the parameters of the configured architecture", [tuple(t.shape) for t in mine], [tuple(t.shape) for t in theirs])
    ref.load_state_dict(dict(zip(ref.state_dict().keys(), mine)))
    drops = lambda m: [k.p for k in m.modules() if isinstance(k, torch.nn.Dropout)]
    norms = lambda m: [type(k).__name__ for k in m.modules() if "Norm" in type(k).__name__]
    c.same("dropout and normalisation as configured", (drops(net), norms(net)), (drops(ref), norms(ref)))
    net.eval()
    ref.eval()
    with torch.no_grad():
        if kind in ("actor", "discrete actor"):
            c.same("the exploration noise configured", net.exploration_variance, var)
            net.exploration_variance = None
            same = lambda: c.close(c.call("forward", net, x).action, ref(x.float_features), atol=1e-5)
        elif kind in ("gaussian", "dirichlet"):
            def draw(m):
                torch.manual_seed(1)
                return m(x).action
            same = lambda: c.close(c.call("forward", draw, net), draw(ref), atol=1e-5)
        else:
            out = lambda r: r.acc_reward if hasattr(r, "acc_reward") else r
            same = lambda: c.close(out(c.call("forward", net, *inp)), out(ref(*inp)), atol=1e-5)
        c.check("the configured network's function", same())
