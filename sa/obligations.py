"""Which value-flow obligations decide which property.

Each entry is (module pattern, qualified-name pattern, facet pattern,
filter).  Patterns are anchored regular expressions; a module is given without
the leading ``optbinning.``.  Facets: sig (parameters, defaults, decorators),
ret (returned value), attr:<name> (final value of an attribute of self),
effect (calls made for their effect, stores into other objects), raise
(rejection conditions), print (printed report), quiet (messages emitted with
verbosity off).  The filter, when present, further restricts an entry to
deviations whose differing sub-terms mention the given thing.
"""
import re
from . import terms as tm
from .terms import T

ANY = ".*"
EST = (r"binning\.(binning|continuous_binning|multiclass_binning)|"
       r"binning\.multidimensional\.(binning_2d|continuous_binning_2d)|"
       r"binning\.uncertainty\.binning_scenarios")
EST1 = (r"binning\.(binning|continuous_binning|multiclass_binning)|"
        r"binning\.uncertainty\.binning_scenarios")
PW = r"binning\.piecewise\.(base|binning|continuous_binning|metrics|" \
     r"transformations|binning_statistics)"
PROC = r"binning\.binning_process"
DIST = r"binning\.distributed\.(base|binning_process_sketch|" \
       r"binning_sketch|bsketch|gk)"
CF = r"scorecard\.counterfactual\.(base|counterfactual|mip|model_data|" \
     r"multi_mip|problem_data|utils)"
INFO = r".*(_information|information|options|formatting)"
VALUE = r"ret|attr:.*|effect|sig"
ALL = r".*"


# --------------------------------------------------------------- filters

def pair_terms(v):
    for p in v.pairs:
        for t in p:
            if isinstance(t, (T, tuple)):
                yield t


def mentions(rx):
    rx = re.compile(rx)

    def f(v, ctx):
        if rx.search(v.what):
            return True
        for t in pair_terms(v):
            if tm.contains_term(t, lambda x: name_of(x) is not None and
                                rx.search(name_of(x)) is not None):
                return True
        for p in v.pairs:
            # the value is an argument of such a call
            for n in getattr(p, "ctx", ())[-3:]:
                if rx.search(n):
                    return True
        return False
    f.text = "mentions /%s/" % rx.pattern
    return f


def name_of(x):
    if x.op in ("call", "new", "ext", "func", "cls"):
        return x.args[0]
    if x.op == "mcall":
        return "." + x.args[1]
    if x.op == "attr":
        return "." + x.args[1]
    if x.op == "sym":
        return x.args[0]
    if x.op == "const":
        return repr(x.args[0])
    if x.op in ("mut", "store", "storeto", "unbound", "set", "setv", "after"):
        return "<%s>" % x.op
    return None


def option(v, ctx):
    """The deviation involves a constructor option of the class."""
    opts = ctx.options(v.fid)
    if not opts:
        return False
    for t in pair_terms(v):
        if tm.contains_term(
                t, lambda x: x.op == "attr" and x.args[0] is ctx.SELF and
                x.args[1] in opts):
            return True
    # a value that replaces an option by something else at a call keyword
    for a, b in v.pairs:
        if isinstance(a, T) and a.op == "attr" and a.args[1] in opts:
            return True
    return False


option.text = "involves a constructor option"


def passed(v, ctx):
    """A parameter handed on to a callee is replaced by something else."""
    for p in v.pairs:
        a = p[0]
        if isinstance(a, T) and a.op == "sym" and a.args[0].startswith("$"):
            n = a.args[0].lstrip("$*")
            if n in getattr(p, "ctx", ()) or "**" in getattr(p, "ctx", ()):
                return True
    return False


passed.text = "parameter handed on under its own name"


def option_attr(v, ctx):
    """An option attribute gets another value."""
    m = re.match(r"attribute self\.(\w+)$", v.what)
    return bool(m) and m.group(1) in ctx.options(v.fid)


option_attr.text = "value of an option attribute"


def history(v, ctx):
    """The new value depends on the object's earlier state."""
    for a, b in v.pairs:
        if not isinstance(b, (T, tuple)):
            continue

        def own(x):
            return x.op == "attr" and x.args[0] is ctx.SELF and \
                (x.args[1].startswith("_") or x.args[1].endswith("_"))
        sa = set(tm.collect(a, own)) if isinstance(a, (T, tuple)) else set()
        sb = set(tm.collect(b, own))
        if sb - sa:
            return True
    return False


history.text = "depends on earlier state"

caller_mut = mentions(r"^<(mut|store|storeto)>$|^copy$|^\.copy$|deepcopy|"
                      r"^inplace$")
RANDOM = (r"random|seed|<set>|^set$|frozenset|^hash$|^id$|time\.|datetime|"
          r"uuid|listdir|\.popitem|n_jobs|cpu_count|environ")
random = mentions(RANDOM)
verbose = mentions(r"verbose|print_output|logger")
digit = mentions(r"digitize|searchsorted|bisect|'right'|'left'|numpy\.cut|"
                 r"pandas\.cut|interval")
trend = mentions(r"trend|auto_|monoton")
internal_error = mentions(r"^<unbound>$")


P = {}


def add(pid, *entries):
    P.setdefault(pid, []).extend(
        tuple(list(e) + [ALL, None][len(e) - 2:]) if len(e) < 4 else tuple(e)
        for e in entries)


add("C01",
    (r"binning\.transformations", ANY),
    (r"binning\.multidimensional\.transformations_2d", ANY),
    (EST + r"|binning\.distributed\.binning_sketch",
     r".*\.(transform|fit_transform)"),
    (EST, r".*\._fit", ALL, mentions(r"_binning_table|_splits_optimal|"
                                     r"target_info|_n_event|_n_nonevent|"
                                     r"_categories|_cat_others|_sums")),
    (r"binning\.binning_statistics", r"bin_categorical|bin_str_format|"
     r"_bin_str_label_format"),
    (r"binning\.multidimensional\.binning_statistics_2d",
     r"bin_categorical|bin_str_format|bin_xy_str_format|_bin_fmt.*"),
    (r"binning\.base", ANY))

add("C02",
    (r"binning\.transformations", r"_transform_metric_indices_bins|"
     r"_apply_transform|transform_.*"),
    (r"binning\.binning_statistics", r"bin_str_format|bin_categorical|"
     r"bin_info|multiclass_bin_info|continuous_bin_info|target_info.*"),
    (r"binning\.multidimensional\.transformations_2d", ANY),
    (r"binning\.multidimensional\.binning_statistics_2d",
     r"bin_str_format|bin_xy_str_format|_bin_fmt.*"),
    (EST, r".*\.(_compute_prebins|_prebinning_refinement|"
     r"_prebinning_matrices|_splits_xy_optimal|splits)"),
    (r"binning\.distributed\.bsketch", r"_indices_count|BSketch\.bins"),
    (r"binning\.distributed\.binning_sketch", r".*\._compute_prebins|"
     r".*\._prebinning_data"),
    (r"binning\.piecewise\.(base|metrics|transformations|"
     r"binning_statistics)", ANY, ALL,
     mentions(r"digitize|searchsorted|inf|splits|str_format|<=|>=|indices")),
    (r"scorecard\.monitoring", ANY, ALL,
     mentions(r"digitize|searchsorted|histogram|inf|splits|str_format")),
    (r".*", ANY, ALL, digit))

add("C03",
    (r"binning\.preprocessing", ANY),
    (r"binning\.multidimensional\.preprocessing_2d", ANY),
    (r"binning\.outlier", ANY),
    (r"binning\.transformations", r"_mask_special_missing|"
     r"_retrieve_special_codes|_check_.*|transform_.*|_apply_transform"),
    (r"binning\.multidimensional\.transformations_2d",
     r"_mask_special_missing.*|transform_.*|_apply_transform"),
    (r"binning\.distributed\.bsketch", r"BSketch\.(add|_.*|bins)|"
     r"BCatSketch\.(add|_.*|bins)"),
    (r"binning\.piecewise\.transformations", ANY),
    (EST + r"|binning\.piecewise\..*", r".*\.(_fit|_fit_preprocessing|fit)",
     ALL, mentions(r"split_data|special|missing|outlier|fix_lb|fix_ub|"
                   r"sample_weight|<unbound>|_clean|class_weight")),
    (EST + r"|binning\.piecewise\..*", ANY, r"attr:.*_(special|missing)"),
    (r"binning\.binning_statistics", r"target_info_special.*"))

add("C04",
    (r"binning\.binning_statistics", r"(?!.*\.(plot)$).*"),
    (r"binning\.multidimensional\.binning_statistics_2d",
     r"(?!.*\.(plot)$).*"),
    (r"binning\.piecewise\.binning_statistics", r"(?!.*\.(plot)$).*"),
    (r"binning\.(multidimensional\.)?preprocessing(_2d)?", r"split_data.*|"
     r"preprocessing_user_splits_categorical|categorical_.*"),
    (EST + r"|binning\.distributed\.binning_sketch", r".*\.(_compute_prebins|"
     r"_compute_cat_prebins|_prebinning_refinement|_prebinning_matrices|"
     r"binning_table|binning_table_scenario|_prebinning_data)"),
    (EST + r"|binning\.piecewise\..*|binning\.distributed\.binning_sketch",
     r".*\.(_fit|_fit_optimizer|_fit_binning|solve|_fit_prebinning)", ALL,
     mentions(r"_binning_table|BinningTable|bin_info|target_info|n_event|"
              r"n_nonevent|_n_records|_sums|_stds|_min_|_max_|special|"
              r"missing|cat_others|_cat|n_zeros|<unbound>")))

add("C05",
    (r"binning\.metrics", ANY),
    (r"metrics\..*", ANY),
    (r"binning\.model_data", r"test_proportions|find_pvalue_.*|find_min_.*"),
    (r"binning\.piecewise\.metrics", ANY),
    (r"scorecard\.plots", ANY),
    (r"binning\.binning_statistics|binning\.multidimensional\."
     r"binning_statistics_2d|binning\.piecewise\.binning_statistics",
     r".*\.(analysis|build|gini|iv|js|hellinger|triangular|ks|"
     r"quality_score|woe)|bin_info|.*_bin_info|nstd"),
    (r"scorecard\.monitoring", r".*\.(_system_.*|_fit_.*)"),
    (r"binning\.transformations", r"transform_event_rate_to_woe|"
     r"transform_woe_to_event_rate"))

add("C06",
    (r"binning\.(cp|mip|ls|continuous_cp|multiclass_cp|multiclass_mip|"
     r"model_data)", ANY),
    (EST1 + r"|binning\.distributed\.binning_sketch",
     r".*\.(_fit_optimizer|_compute_prebins|_compute_cat_prebins|"
     r"_prebinning_refinement|_prebinning_data)"))

add("C07",
    (r"binning\.multidimensional\.(cp_2d|mip_2d|model_data_2d|"
     r"model_data_cart_2d)", ANY),
    (r"binning\.multidimensional\.(binning_2d|continuous_binning_2d)",
     r".*\.(_fit_optimizer|_prebinning_matrices|_splits_xy_optimal|"
     r"_fit_prebinning|_fit)"))

add("C08",
    (r".*", r".*\.(solve|decision_variables.*)"),
    (EST + r"|binning\.distributed\.binning_sketch|" + PW,
     r".*\.(_fit_optimizer|status|_splits_xy_optimal|_fit_binning)"),
    (EST + r"|" + PW, r".*\.(_fit|fit)", ALL,
     mentions(r"status|solution|optimizer|splits_optimal|time_limit")),
    (r"scorecard\.counterfactual\..*", r".*\.(generate|status|"
     r"_get_counterfactual|weighted_model|hierarchical_model)", ALL,
     mentions(r"status|solve|time_limit|solution")),
    (r"scorecard\.rounding", ANY),
    (INFO, r"retrieve_status|solver_statistics"),
    (r"scorecard\.scorecard", r"_compute_.*", ALL,
     mentions(r"status|solve|Rounding|solution")),
    (r"binning\.(cp|mip|continuous_cp|multiclass_cp|multiclass_mip|ls)|"
     r"binning\.multidimensional\.(cp_2d|mip_2d)|scorecard\..*",
     r".*\.(__init__|build_model.*)", ALL,
     mentions(r"time_limit|solution_value|decision_variables")))

add("C09",
    (r".*", r".*\.__init__"),
    (r".*", ANY, r"sig"),
    (r".*", ANY, r"ret|attr:.*|effect", option),
    (r".*", ANY, r"ret|attr:.*|effect", passed))

add("C10",
    (r".*", ANY, r"raise"),
    (r".*", r"(.*\.)?_check_(?!is_)\w*", ALL),
    (r".*", ANY, r"effect", mentions(r"_check_(?!is_)\w*|check_array|"
                                     r"check_consistent_length|check_X_y")))

add("C11",
    (r".*", r"(.*\.)?_check_(is_.*|counterfactual_is_found)"),
    (r".*", ANY, r"effect|ret|attr:.*|raise",
     mentions(r"_check_is_|_check_counterfactual|_is_(fitted|built|"
              r"analyzed|solved|generated|started|updated)|NotFitted|"
              r"NotSolved|NotGenerated|NotDataAdded|cf_is_found")),
    (r".*", ANY, r"attr:_is_(fitted|built|analyzed|solved|generated|"
     r"started|updated)|attr:_is_.*"),
    (r"exceptions", ANY))

add("C12", (r".*", ANY, r"ret|attr:.*|effect", caller_mut))

add("C13",
    (r".*", r".*\._reset"),
    (r".*", ANY, r"attr:.*|effect", option_attr),
    (r".*", r".*\.(fit|_fit.*|build|add|solve|_prebinning.*|_compute.*|"
     r"_recurse|_transform|generate|_generate|merge|analysis|fit_.*)",
     r"attr:.*", history),
    (r".*", r".*\.(fit|_fit|_fit_preprocessing|fit_disk|fit_from_dict|"
     r"_fit_disk|_fit_from_dict)", r"attr:.*|effect",
     mentions(r"_reset|_n_refinements|_user_splits|_min_n_bins|_intercept|"
              r"_binned_variables|_variable_|_splits\b|_n_scenarios|_flag")),
    (r"binning\.mdlp", r"MDLP\.(fit|_fit|_recurse|splits|__init__)",
     r"attr:.*"))

add("C14",
    (PROC, r"_fit_variable|_fit_block|_read_column|_check_variable_dtype|"
     r"BinningProcess\.(fit.*|_fit.*|transform.*|_transform.*|"
     r"get_binned_variable|update_binned_variable|summary)"),
    (r"binning\.distributed\.binning_process_sketch",
     r"BinningProcessSketch\.(add|solve|transform|merge|"
     r"get_binned_variable|summary)"))

add("C15",
    (PROC, r"BaseBinningProcess\..*|_check_selection_criteria|"
     r"BinningProcess\.(get_support|update_binned_variable|summary)"),
    (PROC, ANY, ALL, mentions(r"support|selection_criteria|"
                              r"fixed_variables|_variable_stats")),
    (r"binning\.distributed\.binning_process_sketch", r".*\.(get_support|"
     r"summary)|_check_.*"),
    (r"binning\.distributed\.binning_process_sketch", ANY, ALL,
     mentions(r"support|selection_criteria|_variable_stats")))

add("C16",
    (r"binning\.distributed\.(base|bsketch|gk)", ANY),
    (r"binning\.distributed\.binning_sketch",
     r".*\.(__init__|add|merge|mergeable|solve|_prebinning_data|"
     r"_compute_.*|_update_streaming_stats)"),
    (r"binning\.distributed\.binning_process_sketch",
     r".*\.(__init__|add|merge|mergeable|solve)"))

add("C17",
    (r"scorecard\.(scorecard|rounding)", ANY))

add("C18", (r"scorecard\.monitoring", ANY))

add("C19", (CF, ANY))

add("C20", (r".*", ANY, r"ret|attr:.*|effect|sig", random))

add("C21",
    (r".*", r".*\.(to_json|read_json|save|load|from_json)|"
     r"(.*\.)?_\w*json\w*"))

add("C22",
    (r".*", ANY, r"quiet"),
    (r".*", r"(.*\.)?(information|plot.*|display|summary|splits|status|"
     r"binning_table|binning_table_scenario|get_support|psi_table|"
     r"psi_variable_table|psi_plot|tests_table|table|score|predict.*|"
     r"decision_function|system_stability_report|get_binned_variable|"
     r"transform|psi_splits|print_.*|plot_progress.*|classes|iv|js|gini|"
     r"hellinger|triangular|ks|quality_score|woe|quantile|n|n_event|"
     r"n_nonevent|bins|mergeable|to_json|save)", r"attr:.*|effect|sig"),
    (r".*", ANY, r"ret|attr:.*|effect", verbose),
    (r"logging", ANY))

add("C23",
    (PW, ANY))

add("C24",
    (r"binning\.(prebinning|mdlp|outlier)", ANY),
    (EST + r"|" + PW, r".*\.(_fit_prebinning|_prebinning_refinement|"
     r"_compute_prebins)"),
    (EST + r"|" + PW, r".*\.(_fit|_fit_preprocessing)", ALL,
     mentions(r"prebin|outlier|user_splits|class_weight|PreBinning|"
              r"_fit_prebinning")),
    (r"binning\.preprocessing", r"split_data|preprocessing_user_splits_.*|"
     r"categorical_cutoff"),
    (r"binning\.distributed\.binning_sketch", r".*\.(_compute_.*|"
     r"_prebinning_data)"))

add("C25",
    (r"binning\.auto_monotonic", ANY),
    (EST + r"|binning\.distributed\.binning_sketch|" + PW,
     r".*\.(_fit_optimizer|_fit_binning)", ALL, trend),
    (r"binning\.(cp|mip|ls|continuous_cp|multiclass_cp|multiclass_mip)",
     r".*\.(__init__|build_model.*)", ALL, trend),
    (r"binning\.binning_statistics", r".*\.(analysis|_analysis.*)", ALL,
     mentions(r"type_of_monotonic_trend")))

add("C26",
    (r"binning\.uncertainty\.binning_scenarios", ANY),
    (r"binning\.cp", r".*scenarios.*"),
    (r"binning\.preprocessing", r"split_data_scenarios"),
    (r"binning\.binning_statistics", r"target_info_samples|target_info|"
     r"target_info_special|bin_info"),
    (r"binning\.model_data", r"model_data"))

add("C27", (r".*", ANY, ALL, internal_error))

add("C28",
    (INFO, ANY),
    (r".*", r".*\.information"),
    (r".*", r"print_.*"),
    (r".*", ANY, r"print"),
    (r".*", ANY, r"attr:_(time.*|n_samples.*|n_prebins|n_refinements|"
     r"n_add|n_solve|solve_stats|status|n_variables|n_numerical|"
     r"n_categorical|n_selected)"))


def module_of(fid):
    return fid.split(":")[0][len("optbinning."):]


def match(pid, fid, facet):
    """Filters of the entries that cover (fid, facet); None = always."""
    mod, qual = module_of(fid), fid.split(":")[1]
    out = []
    for m, q, f, flt in compiled(pid):
        if m.fullmatch(mod) and q.fullmatch(qual) and f.fullmatch(facet):
            out.append(flt)
    return out


_c = {}


def compiled(pid):
    r = _c.get(pid)
    if r is None:
        r = [(re.compile(m), re.compile(q), re.compile(f), flt)
             for m, q, f, flt in P.get(pid, [])]
        _c[pid] = r
    return r
