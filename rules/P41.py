"""Observers, aggregators and reporters; what trainers report is declared."""
import ast

from sa import driver as D, terms
from sa.index import Class
T = "reagent.core.tracker."
O = "reagent.core.observers."
A = "reagent.core.aggregators."
R = "reagent.workflow.reporters.reporter_base."


def run(cx):
    n = dict(init=False)
    cx.same(T + "Observer.__init__", "notify.observer_init", "attrs:observing_keys")
    cx.same(T + "Observer.get_observing_keys", "notify.observing_keys", "ret", **n)
    cx.same(T + "Aggregator.__init__", "notify.aggregator_init", "attrs:key")
    cx.same(T + "Aggregator.__call__", "notify.aggregator_call", "calls:aggregate", "raises", opaque={"aggregate"}, **n)
    cx.same(T + "ObservableMixin.__init__", "notify.observable_init", "attrs:_observers")
    cx.same(T + "ObservableMixin.add_observer", "notify.add_observer", "ret", "attrs:_observers", **n)
    cx.same(T + "ObservableMixin.add_observers", "notify.add_observers", "ret", "calls:add_observer", opaque={"add_observer"}, **n)
    cx.same(T + "ObservableMixin.notify_observers", "notify.notify", "raises",
            lambda p: p.calls("update", label="deliveries", grad=True), opaque={"update"}, watch={"update"}, **n)

    cx.same(O + "CompositeObserver.__init__", "notify.composite_init", "attrs:observers,observing_keys")
    cx.same(O + "CompositeObserver.update", "notify.composite_update", "calls:update", opaque={"update"}, **n)
    cx.same(O + "EpochEndObserver.__init__", "notify.epoch_end_init", "attrs:observing_keys,callback")
    cx.same(O + "EpochEndObserver.update", "notify.epoch_end_update", "calls:callback", **n)
    cx.same(O + "ValueListObserver.__init__", "notify.value_list_init", "attrs:observing_keys,observing_key,values")
    cx.same(O + "ValueListObserver.update", "notify.value_list_update", "attrs:values", **n)
    cx.same(O + "ValueListObserver.reset", "notify.value_list_reset", "attrs:values", **n)
    cx.same(O + "TensorBoardScalarObserver.__init__", "notify.scalar_init", "attrs:observing_keys,key,logging_key")
    cx.same(O + "TensorBoardScalarObserver.update", "notify.scalar_update", "calls:add_scalar", **n)
    i = O + "IntervalAggregatingObserver."
    cx.same(i + "__init__", "notify.interval_init", "attrs:key,observing_keys,iteration,interval,intermediate_values,aggregator")
    cx.same(i + "update", "notify.interval_update", "calls:aggregator,flush", "attrs:iteration,intermediate_values", opaque={"flush", "aggregator"}, **n)
    cx.same(i + "flush", "notify.interval_flush", "calls:aggregator", "attrs:iteration,intermediate_values", opaque={"aggregator"}, **n)

    cx.same(A + "TensorAggregator.__call__", "notify.tensor_call", "calls:aggregate", "raises", opaque={"aggregate"}, **n)
    cx.same(A + "_log_histogram_and_mean", "notify.log_histogram", "calls:add_histogram,add_scalar")
    logs = {"_log_histogram_and_mean"}
    for c, s, attrs, obs in (("TensorBoardHistogramAndMeanAggregator", "histogram", "key,log_key", "calls:_log_histogram_and_mean"),
                             ("TensorBoardActionHistogramAndMeanAggregator", "action_histogram", "key,log_key_prefix,actions", "calls:_log_histogram_and_mean"),
                             ("TensorBoardActionCountAggregator", "action_count", "key,log_key,actions", "calls:add_scalar"),
                             ("MeanAggregator", "mean", "key,values", "attrs:values"),
                             ("FunctionsByActionAggregator", "functions", "key,actions,values,fns", "attrs:values"),
                             ("ActionCountAggregator", "counts", "key,actions,values", "attrs:values"),
                             ("RecentValuesAggregator", "recent", "key,values", "attrs:values")):
        chart = {"add_custom_scalars_multilinechart"}
        cx.same(A + c + ".__init__", f"notify.{s}_init", "attrs:" + attrs, "calls:" + ",".join(chart), opaque=chart)
        cx.same(A + c + ".aggregate", "notify." + s, obs, "raises", opaque=logs, **n)
    cx.same(A + "ActionCountAggregator.get_distributions", "notify.distributions", "ret", **n)
    cx.same(A + "ActionCountAggregator.get_cumulative_distributions", "notify.cumulative", "ret", **n)

    cx.same(R + "ReporterBase.__init__", "notify.reporter_init",
            "attrs:_value_list_observers,_aggregating_observers,observers,observing_keys,_reporter_observable")
    cx.same(R + "ReporterBase.log", "notify.reporter_log", "calls:notify_observers", opaque={"notify_observers"}, **n)
    cx.same(R + "ReporterBase.flush", "notify.reporter_flush", "calls:flush", opaque={O + "IntervalAggregatingObserver.flush"}, **n)
    cx.same(R + "ReporterBase.__getattr__", "notify.reporter_getattr", "ret", "raises", **n)
    cx.same(R + "_ReporterObservable._observable_value_types", "notify.declared_types", "ret", **n)
    cx.same(R + "FlexibleDataPointsPerEpochMixin.flush", "notify.flexible_flush", "calls:flush",
            "attrs:num_data_points_per_epoch,last_epoch_end_num_batches", opaque={O + "IntervalAggregatingObserver.flush"}, **n)

    w = "reagent.tensorboardX.SummaryWriterContext."
    cx.same(w + "_reset_globals", "notify.reset_globals", "attrs:_global_step,_custom_scalars")
    cx.same(w + "increase_global_step", "notify.next_step", "attrs:_global_step")
    cx.same(w + "add_custom_scalars_multilinechart", "notify.multiline", "attrs:_custom_scalars")
    cx.same(w + "push", "notify.push_writer", "attrs:_writer_stacks")

    for mod, cls, spec in (("discrete_dqn", "DiscreteDQNReporter", "dqn"), ("discrete_crr", "DiscreteCRRReporter", "crr"),
                           ("parametric_dqn", "ParametricDQNReporter", "parametric"), ("actor_critic", "ActorCriticReporter", "actor_critic"),
                           ("slate_q", "SlateQReporter", "slate"), ("td3", "TD3Reporter", "td3"), ("sac", "SACReporter", "sac")):
        q = f"reagent.workflow.reporters.{mod}_reporter.{cls}"
        cx.same(q + ".__init__", f"notify.{spec}_reporter", "attrs:_value_list_observers,_aggregating_observers", cls=q)
    declared(cx)


# ---------------------------------------------------------------- what is reported is declared
def methods(cx, cls):
    """methods an object of the class runs: the first of each name, and those it extends through super()"""
    seen = {}
    for c in cx.ix.mro(cls):
        for name, f in c.methods.items():
            fs = seen.setdefault(name, [])
            if not fs or any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Call)
                             and isinstance(x.value.func, ast.Name) and x.value.func.id == "super" for x in ast.walk(fs[-1].node)):
                fs.append(f)
    return [f for fs in seen.values() for f in fs]


def sent_keys(fs, attr, receiver):
    for f in fs:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == attr and receiver(x.func.value):
                for k in x.keywords:
                    if k.arg is not None and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                        yield k.arg, f, x


def constructed(cx, fn, base):
    """classes below base that the method constructs"""
    out = []
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Call):
            c = cx.ix.resolve_expr_class(fn.module, x.func)
            if isinstance(c, Class) and base in {y.qual for y in cx.ix.mro(c)}:
                out.append(c)
    return out


def reporter_keys(cx, cls):
    """keys a reporter observes, from the observers its constructor builds"""
    p = D.Pair(cx.ses, cls.qual + ".__init__", "notify.anything", cls=cls.qual)
    out = set()
    for a in ("_value_list_observers", "_aggregating_observers"):
        t = p.impl.attr(a)
        if t.op != "dict":
            return None
        for _, v in t.args:
            for x in terms.subterms(v):
                if x.op == "new":
                    for k, y in x.args[2]:
                        if k in ("key", "observing_key"):
                            if not terms.is_str(y):
                                return None
                            out.add(y.args[1])
    return out


def declared(cx):
    rule = "every reported key is declared by its receiver"
    base = cx.ix.get("reagent.workflow.model_managers.model_manager.ModelManager")
    cx.need(base is not None, "model managers")
    memo = {}
    pairs = 0
    for m in sorted(cx.ix.subclasses(base), key=lambda c: c.qual):
        build, rep = cx.ix.find_method(m, "build_trainer"), cx.ix.find_method(m, "get_reporter")
        if build is None or rep is None:
            continue
        reporters = constructed(cx, rep, R + "ReporterBase")
        trainers = constructed(cx, build, "reagent.training.trainer.Trainer") + constructed(
            cx, build, "reagent.training.reagent_lightning_module.ReAgentLightningModule")
        for t in trainers:
            for r in reporters:
                if r.qual not in memo:
                    memo[r.qual] = reporter_keys(cx, r)
                ks = memo[r.qual]
                if ks is None:
                    cx.fact(rule, r.qual, "keys", False, "observed keys could not be determined", undecided=True)
                    continue
                pairs += 1
                own = lambda v: isinstance(v, ast.Attribute) and v.attr == "reporter" or isinstance(v, ast.Name) and v.id == "reporter"
                bad = [(k, f, x) for k, f, x in sent_keys(methods(cx, t), "log", own) if k not in ks]
                cx.fact(rule, f"{t.qual} -> {r.qual}", "reported keys", not bad,
                        "; ".join(f"{f.qual} reports '{k}', which {r.name} does not observe" for k, f, x in bad),
                        bad[0][1].loc(bad[0][2]) if bad else build.loc())
    cx.need(pairs >= 6, "trainers paired with their reporters")
    n = 0
    for mod in cx.ix.all_modules():
        for c in [s for s in mod.syms.values() if isinstance(s, Class)]:
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", getattr(d.func, "attr", "")) == "observable":
                    ks = {k.arg for k in d.keywords}
                    n += 1
                    bad = [(k, f, x) for k, f, x in sent_keys(methods(cx, c), "notify_observers", lambda v: isinstance(v, ast.Name) and v.id == "self")
                           if k not in ks]
                    cx.fact(rule, c.qual, "notified keys", not bad,
                            "; ".join(f"{f.qual} notifies '{k}', which the class does not declare" for k, f, x in bad),
                            bad[0][1].loc(bad[0][2]) if bad else f"{mod.relpath}:{c.node.lineno}")
    cx.need(n >= 6, "observable classes")
