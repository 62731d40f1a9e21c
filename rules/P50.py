"""Reported numbers: averages, counts, distributions, charts and messages show the values computed."""
import ast
import builtins
import os
import string

C = "reagent.evaluation.cpe."
L = "reagent.training.loss_reporter."
R = L + "LossReporter."
B = L + "BatchStats."
A = L + "StatsByAction."


def _used(text):
    used, auto = set(), 0
    for _, name, spec, _ in string.Formatter().parse(text):
        if name is None:
            continue
        k = name.split(".")[0].split("[")[0]
        if k == "":
            k, auto = auto, auto + 1
        used.add(int(k) if str(k).isdigit() else k)
        if spec and "{" in spec:
            u = _used(spec)
            used |= u
    return used


def builtin_names(cx):
    """no message shows a built-in function in place of a value"""
    n = 0
    for m in cx.ix.all_modules():
        if m.name.startswith(("reagent.test.", "reagent.notebooks.")):
            continue
        local = {}
        for fn in ast.walk(m.tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                names = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
                names |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                for x in ast.walk(fn):
                    local.setdefault(id(x), set()).update(names)
        top = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        top |= {a.asname or a.name for x in ast.walk(m.tree) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        bad, here = [], 0
        for x in ast.walk(m.tree):
            if isinstance(x, ast.FormattedValue):
                here += 1
                v = x.value
                if isinstance(v, ast.Name) and callable(getattr(builtins, v.id, None)) and v.id not in local.get(id(x), ()) and v.id not in top:
                    bad.append("line %d shows the built-in %s" % (v.lineno, v.id))
        n += here
        if here:
            cx.fact("a message shows the values computed", m.name, "interpolated values", not bad, "; ".join(bad), m.relpath)
    cx.need(n > 100, "interpolated values (%d found)" % n)
    cx.coverage["interpolated_values"] = n


def messages(cx):
    """every value handed to a message template appears in it, and every value it names is handed over"""
    n = 0
    for m in cx.ix.all_modules():
        if m.name.startswith(("reagent.test.", "reagent.notebooks.")) or ".test" in m.name:
            continue
        bad, here = [], 0
        for node in ast.walk(m.tree):
            if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "format"
                    and isinstance(node.func.value, ast.Constant) and isinstance(node.func.value.value, str)):
                continue
            if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
                continue
            here += 1
            used = _used(node.func.value.value)
            given = set(range(len(node.args))) | {k.arg for k in node.keywords}
            if used != given:
                bad.append("line %d hands over %s and shows %s" % (node.lineno, sorted(map(str, given)), sorted(map(str, used))))
        n += here
        if here:
            cx.fact("a message shows every value it is given", m.name, "message templates", not bad, "; ".join(bad), m.relpath)
    cx.need(n > 20, "message templates (%d found)" % n)
    cx.coverage["message_templates"] = n


def run(cx):
    messages(cx)
    builtin_names(cx)
    n = dict(init=False)
    shown = lambda p: p.calls("add_scalar", label="plotted values")
    cx.same(C + "CpeEstimateSet.log_to_tensorboard", "reports.cpe_scalars", shown, **n)
    cx.same(C + "CpeDetails.log_to_tensorboard", "reports.cpe_details_scalars", "calls:log_to_tensorboard", opaque={"log_to_tensorboard"}, **n)
    cx.same(C + "CpeDetails.log", "reports.cpe_details_log", lambda p: p.calls("log", label="logged estimates"), opaque={C + "CpeEstimateSet.log"}, **n)
    cx.same("reagent.core.report_utils.get_mean_of_recent_values", "reports.recent_means", "ret")
    cx.same("reagent.core.report_utils.calculate_recent_window_average", "reports.window", "ret")

    cx.same(B + "write_summary", "reports.summary", lambda p: p.calls("add_scalar", "_log_histogram_and_mean", label="plotted values"),
            opaque={"_log_histogram_and_mean"}, **n)
    cx.same(B + "_log_histogram_and_mean", "reports.histogram_and_mean", lambda p: p.calls("add_scalar", "add_histogram", label="plotted values"), **n)
    cx.same(B + "add_custom_scalars", "reports.charts", lambda p: p.calls("add_custom_scalars_multilinechart", label="charts"), **n)
    cx.same(A + "__init__", "reports.by_action_init", "attrs:stats")
    cx.same(A + "append", "reports.by_action_append", "written", lambda p: p.calls("append", kinds=("call", "setitem"), label="kept values"), **n)
    cx.same(A + "items", "reports.by_action_items", "ret", **n)
    cx.same(A + "__len__", "reports.by_action_len", "ret", **n)
    cx.same(R + "__init__", "reports.reporter_init",
            "attrs:action_names,running_reward,td_loss,reward_loss,imitator_loss,logged_action_q_value,logged_action_counts,model_values,model_value_stds,"
            "model_action_counts,model_action_counts_cumulative,model_action_distr,incoming_stats,loss_report_interval", "calls:add_custom_scalars", opaque={"add_custom_scalars"})
    cx.same(R + "report", "reports.report", "attrs:incoming_stats", "calls:flush", opaque={"flush"}, **n)
    cx.same(R + "flush", "reports.flush", "attrs:td_loss,reward_loss,imitator_loss,running_reward,logged_action_q_value,logged_action_counts,model_action_counts_cumulative,incoming_stats",
            lambda p: p.calls("append", "write_summary", label="kept values"), opaque={"write_summary", "merge_tensor_namedtuple_list", A + "append"}, **n)
    cx.same(R + "calculate_recent_window_average", "reports.window", "ret", **n)
    for m, s in (("num_batches", "num_batches"), ("get_td_loss_after_n", "later_losses"), ("get_recent_td_loss", "recent_td"), ("get_recent_reward_loss", "recent_reward_loss"),
                 ("get_recent_imitator_loss", "recent_imitator"), ("get_logged_action_distribution", "logged_distribution"),
                 ("get_model_action_distribution", "model_distribution"), ("get_recent_rewards", "rewards")):
        cx.same(R + m, "reports." + s, "ret", opaque={"calculate_recent_window_average"}, **n)
    cx.same(R + "log_to_tensorboard", "reports.reporter_scalars", shown, opaque={"get_recent_td_loss", "get_recent_reward_loss", "get_recent_imitator_loss"}, **n)
    cx.same("reagent.tensorboardX.SummaryWriterContext.add_custom_scalars", "reports.custom_scalars", "calls:add_custom_scalars", **n)
    cx.same("reagent.workflow.reporters.reporter_base.DataPointsPerEpochMixin.flush", "reports.epoch_points", "attrs:last_epoch_end_num_batches,num_data_points_per_epoch", **n)
    cx.same(L + "merge_tensor_namedtuple_list", "reports.merged", "ret")
