"""What each property's check runs: models (mc) and trace jobs."""

GENERIC = ["TLC and the RealArith override (exact rationals, 50-digit exp/ln/sqrt)",
           "the harness records what the code does faithfully",
           "floating-point results are compared within the tolerances stated in the specification"]
PROPERTIES = {}


def prop(id, **k):
    k.setdefault("level", "model_checking")
    k.setdefault("assumptions", GENERIC)
    PROPERTIES[id] = k


def cfg(spec, invs, consts=None, view=None, props=()):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    for i in invs:
        s += "INVARIANT %s\n" % i
    for i in props:
        s += "PROPERTY %s\n" % i
    for k, v in (consts or {}).items():
        s += "CONSTANT %s = %s\n" % (k, v)
    if view:
        s += "VIEW %s\n" % view
    return s


def exp_models(rule, tier):
    """AdaBoost / AdaBoostV / MadaBoost against every weak learner."""
    out = []
    invs = ["DistOK", "Orthogonal", "ErrorBound", "MadaCap", "MadaMonotone", "VotesPositive", "Emit"]
    th = tier == "thorough"
    for name, M, B, vals in [("pm1-m3", 3, 3 if th else 2, '{"1", "-1"}'),
                             ("abst-m2", 2, 3 if th else 2, '{"1", "1/2", "0", "-1/3", "-1"}'),
                             ("pm1-m4", 4, 2, '{"1", "-1"}')] + ([("abst-m3", 3, 2, '{"1", "1/2", "-1", "0"}')] if th else []):
        out.append(dict(name="%s-%s" % (rule, name), module="MCExpBoost",
                        cfg=cfg("MCSpec", invs, dict(M=M, B=B, RULE='"%s"' % rule, TOLR='"1/10"', VALS=vals))))
    return out


prop("B03")
prop("B04")
prop("B06")
for _p in ("B01", "B02", "B13", "B14", "B19"):
    prop(_p)


def game_models(tier):
    invs = ["TypeOK", "OneQuery", "QueriesAreDists", "WeakDuality", "SoftMarginIsLeast", "Emit"]
    th = tier == "thorough"
    out = []
    for name, M, B, vals, grid, nu in [("m2", 2, 2, '{"1", "1/2", "-1"}', 2, 1), ("m3", 3, 1, '{"1", "0", "-1"}', 4, 2)] + (
            [("m2b3", 2, 3, '{"1", "0", "-1"}', 2, 1), ("m3b2", 3, 2, '{"1", "-1"}', 4, 2)] if th else []):
        out.append(dict(name="game-" + name, module="MCGame",
                        cfg=cfg("MCSpec", invs, dict(M=M, B=B, VALS=vals, GRID=grid, NU=nu))))
    return out


for _p in ("B07", "B08", "B09", "B10", "B11", "B12"):
    prop(_p)
MARGIN = {"B07": ["lpboost"], "B08": ["erlpboost"], "B09": ["softboost", "totalboost"], "B10": ["cerlpboost"],
          "B11": ["mlpboost"], "B12": ["cerlpboost", "mlpboost"]}


def margin_models(p, tier):
    """The soft-margin boosters against every best-response weak learner over every small class."""
    th = tier == "thorough"
    invs = ["DistLegal", "CombLegal", "CertOK", "StrongDuality", "GminSound", "Optimal", "Ascent", "Emit"]
    pm, ab = '{"1", "-1"}', '{"1", "0", "-1"}'

    def one(name, algs, rules, nus, tols, grid, maxclass, b, m=3, vals=pm, **k):
        return dict(name="margin-" + name, module="MCMargin", view="MCView",
                    cfg=cfg("MCSpec", invs, dict(M=m, ALGS=algs, RULES=rules, NUS=nus, TOLS=tols, GRID=grid,
                                                 MAXCLASS=maxclass, B=b, VALS=vals), "MCView"), timeout=800, **k)
    sh = '{"short"}'
    if p == "B07":
        return [one("lp", '{"lp"}', sh, '{"1", "2"}', '{"1/10", "1/2"}', 12, 2, 4)] + (
            [one("lp3", '{"lp"}', sh, '{"1", "2", "3"}', '{"1/10", "1/2"}', 12, 3, 5)] if th else [])
    if p == "B08":
        return [one("erlp", '{"erlp"}', sh, '{"1", "2"}', '{"1/2"}', 12, 2, 6)] + (
            [one("erlp2", '{"erlp"}', sh, '{"1", "2"}', '{"1/4", "1/10"}', 12, 2, 8)] if th else [])
    if p == "B09":
        return [one("soft", '{"soft"}', sh, '{"1", "2"}', '{"1/2"}', 12, 2, 4)] + (
            [one("soft2", '{"soft"}', sh, '{"1", "2"}', '{"1/10"}', 12, 2, 5)] if th else [])
    if p in ("B10", "B12"):
        return [one("cerlp", '{"cerlp"}', '{"short", "classic"}', '{"1", "2"}', '{"1/2"}', 12, 2, 5)] + (
            [one("cerlp2", '{"cerlp"}', '{"short", "classic"}', '{"1", "2", "3"}', '{"1/4"}', 12, 3, 7)] if th else [])
    if p == "B11":
        return [one("mlp", '{"mlp"}', '{"short", "classic"}', '{"1", "2"}', '{"1/2"}', 12, 2, 5)] + (
            [one("mlp2", '{"mlp"}', '{"short", "classic"}', '{"1", "2", "3"}', '{"1/4"}', 12, 3, 6)] if th else [])


prop("B05")
prop("B15")


def vote_models(tier):
    th = tier == "thorough"
    invs = ["Paired", "UnitSum", "BuildKeepsSigns", "Idempotent", "Bounded", "SameAsPush", "Emit"]
    return [dict(name="vote", module="MCVote",
                 cfg=cfg("MCSpec", invs, dict(N=3 if th else 2, B=4 if th else 3, WS='{"0", "1", "-1/2", "3"}')))]



def smooth_models(tier):
    th = tier == "thorough"
    invs = ["SumsAreMargins", "Smooth", "MarginAtEnd", "Terminates", "Emit"]

    def one(name, M, B, k, g, vals, me):
        return dict(name="smooth-" + name, module="MCSmooth", timeout=800,
                    cfg=cfg("MCSpec", invs, dict(M=M, B=B, KAPPA=k, GAMMA=g, VALS=vals, MINEDGE=me), "MCView"))
    pm, ab = '{"1", "-1"}', '{"1", "1/2", "-1"}'
    out = [one("any", 2, 3, '"1/2"', '"2/5"', ab, '"-1"'), one("wl", 3, 0, '"1/2"', '"1/6"', pm, '"1/3"')]
    if th:
        out += [one("any3", 3, 5, '"1/2"', '"2/5"', ab, '"-1"'), one("end", 2, 0, '"1/2"', '"2/5"', pm, '"-1"'),
                one("wl2", 4, 0, '"1/2"', '"1/4"', pm, '"1/2"')]
    return out


def sep_models(tier):
    th = tier == "thorough"
    invs = ["OpenPairs", "DistOK", "FirstDist", "Balanced", "EdgeProgress", "RoundBound", "ZeroError", "Emit"]
    return [dict(name="sep-m%d%s" % (M, "-hist" if mem == "TRUE" else ""), module="MCGraphSep", timeout=800,
                 cfg=cfg("MCSpec", invs, dict(M=M, MEMORY=mem), "MCView"))
            for M, mem in [(3, "TRUE"), (4, "FALSE")] + ([(5, "FALSE")] if th else [])]


prop("B16")


def gbm_models(tier):
    th = tier == "thorough"
    invs = ["Optimal", "Exists", "NeverWorse", "Orthogonal", "Additive", "Perfect", "Emit"]
    steps = '{"-2", "-1", "-1/2", "0", "1/3", "1/2", "1", "3"}'

    def one(name, M, B, ys, ps):
        return dict(name="gbm-" + name, module="MCGbm", timeout=800,
                    cfg=cfg("MCSpec", invs, dict(M=M, B=B, YS=ys, PS=ps, LOSSES='{"L1", "L2"}', STEPS=steps)))
    return [one("m2", 2, 2, '{"-1", "0", "3"}', '{"-1", "0", "1", "2"}')] + (
        [one("m3", 3, 2, '{"-1", "2"}', '{"-1", "0", "1"}'), one("m2b3", 2, 3, '{"-1", "3"}', '{"-1", "0", "2"}')] if th else [])


for _p in ("S01", "S02", "S03", "S04", "S05"):
    prop(_p)


def table_models(p, tier):
    th = tier == "thorough"
    invs = ["Rectangular", "SparseIsDense", "NoLostColumn", "Laws", "FoldsOK", "Emit"]

    def one(name, kind, M, D, vals, ys, B, ratios='{"1/2", "4/5"}', folds="{2, 3}"):
        return dict(name="table-" + name, module="MCTable", timeout=800,
                    cfg=cfg("MCSpec", invs, dict(KIND='"%s"' % kind, M=M, D=D, VALS=vals, YS=ys, B=B, RATIOS=ratios, FOLDS=folds)))
    v3, v2, pm = '{"0", "1", "-2"}', '{"0", "3"}', '{"1", "-1"}'
    csv = one("csv", "csv", 2, 2, v3, "{}", 3)
    svm = one("svm", "svm", 2, 2, v3, pm, 2)
    if p == "S01":
        return [csv] + ([one("csv3", "csv", 3, 3, v2, "{}", 2), one("csv1", "csv", 1, 3, v3, "{}", 3)] if th else [])
    if p == "S02":
        return [svm] + ([one("svm3", "svm", 3, 2, v2, '{"1"}', 2), one("svm1", "svm", 1, 3, v3, pm, 3)] if th else [])
    if p == "S05":
        return [one("cv", "svm", 3, 1, v2, '{"1", "2"}', 2, '{"1/4", "1/2", "4/5"}', "{1, 2, 3, 5}")] + (
            [one("cv4", "csv", 4, 2, v2, "{}", 2, '{"1/4", "1/2", "4/5"}', "{1, 2, 3, 5}")] if th else [])
    return [svm] if not th else [svm, one("svm3", "svm", 3, 2, v2, '{"1"}', 2)]


for _p in ("W01", "W02", "W03"):
    prop(_p)


def tree_models(p, tier):
    th = tier == "thorough"
    invs = ["Partition", "NonEmpty", "DepthOK", "Majority", "Progress0", "NewtonStep", "BestStump", "Emit"]

    def one(name, M, D, vals, wts, kinds, splits, lam, ys):
        return dict(name="tree-" + name, module="MCTree", timeout=800,
                    cfg=cfg("MCSpec", invs, dict(M=M, D=D, VALS=vals, WTS=wts, KINDS=kinds, SPLITS=splits, LAM=lam, YS=ys)))
    if p == "W03":
        return [one("newton", 3, 1, '{"0", "1", "3"}', '{"1"}', '{"newton"}', "{0, 1, 2}", '"1/10"', '{"-1", "0", "2"}')] + (
            [one("newton2", 3, 2, '{"0", "1"}', '{"0", "1"}', '{"newton"}', "{1, 2}", '"1/2"', '{"-1", "0", "2"}'),
             one("newton4", 4, 1, '{"0", "1", "3"}', '{"1"}', '{"newton"}', "{1, 2}", '"1/10"', '{"-1", "2"}')] if th else [])
    kinds = '{"entropy", "gini", "edge", "twoing"}'
    pm = '{"1", "-1"}'
    a = one("one", 3, 1, '{"0", "1", "3"}', '{"0", "1", "3"}', kinds, "{1, 2}", '"0"', pm)
    b = one("two", 3, 2, '{"0", "1"}', '{"1"}', kinds, "{1, 2}", '"0"', pm)
    return [a, b] if not th else [a, one("two", 3, 2, '{"0", "1"}', '{"0", "1", "2"}', kinds, "{1, 2}", '"0"', pm),
                                  one("four", 4, 1, '{"0", "1", "3"}', '{"1", "2"}', kinds, "{1, 2, 3}", '"0"', pm)]


prop("W04")


def bayes_models(tier):
    th = tier == "thorough"
    invs = ["Priors", "Means", "Fair", "Same", "Only", "Nearest", "Emit"]

    def one(name, M, D, vals, ys, wts, qs):
        return dict(name="bayes-" + name, module="MCNaiveBayes", timeout=800,
                    cfg=cfg("MCSpec", invs, dict(M=M, D=D, VALS=vals, YS=ys, WTS=wts, QS=qs)))
    a = one("one", 3, 1, '{"0", "1", "3"}', '{"1", "-1"}', '{"0", "1", "3"}', '{"-1", "1", "2"}')
    b = one("two", 3, 2, '{"0", "1"}', '{"1", "-1"}', '{"1"}', '{"0", "3"}')
    return [a, b] + ([one("four", 4, 1, '{"0", "1", "3"}', '{"1", "-1"}', '{"1", "2"}', '{"1", "2"}'),
                      one("labels", 4, 1, '{"0", "1", "3"}', '{"0", "1", "2"}', '{"1"}', '{"1", "2"}')] if th else [])


prop("W05")


def bad_models(tier):
    ns = "{4, 5, 6, 7, 8, 9, 10, 12}" if tier != "thorough" else "{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}"
    return [dict(name="bad", module="MCBadLearner", timeout=800,
                 cfg=cfg("MCSpec", ["Bounded", "Fresh", "Far", "First", "Slow", "Going"],
                         dict(NS=ns, TOLS='{"1/10", "1"}', NUS='{"1", "2", "3"}')))]


prop("R01")


def logger_models(tier):
    b, tt = (3, 2) if tier != "thorough" else (4, 3)
    return [dict(name="logger", module="MCLogger", timeout=800,
                 cfg=cfg("MCSpec", ["OneRowPerRound", "RowsBehind", "Faithful", "Times", "Prompt", "NoEarlyEnd", "NoAskAfter", "Emit"],
                         dict(B=b, T=tt, LIMITS='{99, 0, 2}'), props=["Ends"]))]


prop("R02")


def objective_models(tier):
    th = tier == "thorough"

    def one(name, M, fs, nus):
        return dict(name="obj-" + name, module="MCObjective", timeout=800,
                    cfg=cfg("MCSpec", ["Least", "Dual", "Between", "ErrorBound", "Emit"], dict(M=M, FS=fs, NUS=nus)))
    return [one("three", 3, '{"1", "1/2", "0", "-1"}', '{"1", "3/2", "2", "5/2", "3"}')] + (
        [one("four", 4, '{"2", "1", "0", "-1/3"}', '{"1", "3/2", "2", "10/3", "4"}')] if th else [])


for _p in ("N01", "N02", "N03"):
    prop(_p)


def network_models(p, tier):
    th = tier == "thorough"

    def one(name, vals, xs, nb, b):
        return dict(name="nn-" + name, module="MCNeuralNet", timeout=800,
                    cfg=cfg("MCSpec", {"N01": ["Gradient", "Descent", "Emit"], "N02": ["Ranges", "Emit"], "N03": ["FixPoint", "Descent"]}[p],
                            dict(NAME='"%s"' % name, VALS=vals, XS=xs, NB=nb, B=b, RATE='"1/4"')))
    v = '{"1", "-1/2"}'
    return [one("single", v, '{"1", "-1"}', 1, 2), one("hidden2", v, '{"1", "-1/3"}', 1, 1), one("hidden1", v, '{"1", "-1/3"}', 1, 1)] + (
        [one("batch", v, '{"1", "0"}', 2, 1), one("deep", v, '{"1", "-1/3"}', 1, 1)] if th else [])


prop("B17")


def simplex_models(tier):
    th = tier == "thorough"
    invs = ["Legal", "Sound", "KKT", "Nearest", "Ordered", "Shape", "EntropyOK", "Emit"]

    def one(name, M, logs, nus, grid):
        return dict(name="simplex-" + name, module="MCSimplex", timeout=800,
                    cfg=cfg("MCSpec", invs, dict(M=M, LOGS=logs, NUS=nus, GRID=grid)))
    return [one("three", 3, '{"0", "1", "-2", "60"}', '{"1", "3/2", "2", "5/2", "3"}', 6)] + (
        [one("four", 4, '{"0", "1/3", "-2", "60"}', '{"1", "4/3", "2", "7/2", "4"}', 8)] if th else [])


prop("L01")


def loss_models(tier):
    th = tier == "thorough"
    invs = ["Tangent", "Best", "Mean", "Jensen", "Emit"]
    st = '{"-3", "-2", "-3/2", "-1", "-1/2", "-1/5", "0", "1/5", "1/3", "1/2", "1", "3/2", "2", "3"}'
    gs = '{"-3", "-2", "-1", "-1/2", "0", "1/2", "1", "2", "3"}'
    return [dict(name="loss", module="MCLoss", timeout=800,
                 cfg=cfg("MCSpec", invs, dict(M=3 if th else 2, VALS='{"-1", "0", "1/2", "2"}', GS=gs, STEPS=st)))]


prop("S08")


def column_models(tier):
    th = tier == "thorough"
    return [dict(name="column", module="MCColumn", timeout=800,
                 cfg=cfg("MCSpec", ["Views", "Strict", "SameWithout", "Emit"], dict(M=5 if th else 4, VALS='{"0", "1", "-2"}')))]


prop("W06")


def drawing_models(tier):
    n = 7 if tier == "thorough" else 5
    return [dict(name="drawing", module="MCDrawing", timeout=800,
                 cfg=cfg("MCSpec", ["Same", "Whole", "TreeLike", "Answers", "Emit"],
                         dict(N=n, FEATS='{"x", "a b"}', THRS='{"-3/2", "2"}' if n == 5 else '{"2"}', ANSS='{"1", "-1/3"}')))]


prop("S06")


def request_models(tier):
    th = tier == "thorough"
    invs = ["Decided", "Shape", "TwoSides", "Capping", "Emit"]
    return [dict(name="request", module="MCRequest", timeout=800,
                 cfg=cfg("MCSpec", invs, dict(B=3 if th else 2, M=3,
                         LABELS='{"1", "-1", "0", "1/2", "3000000000", "4000000000", "NaN"}' if th else '{"1", "-1", "3000000000", "4000000000", "-1/2"}',
                         NUS='{"-1", "0", "1/2", "1", "3/2", "3", "2", "7/2", "4"}'), props=["Keeps"]))]


prop("B18")


def settings_models(tier):
    th = tier == "thorough"
    invs = ["LastWins", "Monotone", "Playable", "Sound", "Kin", "Emit"]
    return [dict(name="settings", module="MCSettings", timeout=800,
                 cfg=cfg("MCSpec", invs, dict(B=4 if th else 3, SIZES="{2, 5, 1200}" if th else "{2, 5}", QUITS='{"3", "7"}',
                         TOLS='{"1/2", "1/20", "0.3", "1e-6"}' if th else '{"1/2", "1/20"}',
                         NUS='{"1", "2", "3/2"}' if th else '{"1", "2", "3/2"}'), props=["Local"]))]


prop("W07")


def setup_models(tier):
    th = tier == "thorough"
    return [dict(name="setup", module="MCLearnerSettings", timeout=800,
                 cfg=cfg("MCSpec", ["LastWins", "Partition", "Batches", "Emit"],
                         dict(B=4 if th else 3, VALS="{1, 4}" if th else "{1, 4}")))]


prop("R03")


def console_models(tier):
    th = tier == "thorough"
    return [dict(name="console", module="MCConsole", timeout=800,
                 cfg=cfg("MCSpec", ["Status", "Closing", "Silence", "NotLate", "Ordered", "Refused", "LastWins", "Shown", "Emit"],
                         dict(B=3 if th else 2, N=4 if th else 3, LIMITS='{"0", "3"}', EVERYS='{"1", "2", "-"}', STEPS="{0, 2}")))]


prop("H01")


def hypo_models(tier):
    th = tier == "thorough"
    return [dict(name="hypothesis", module="MCHypothesis", timeout=800,
                 cfg=cfg("MCSpec", ["Faithful", "Origins", "Kept", "NoOther", "Emit"], dict(B=7 if th else 6, NV=3 if th else 2), props=["Monotone"]))]


prop("S07")


def prepare_models(tier):
    th = tier == "thorough"
    invs = ["LastWins", "SeedsThen", "Denotes", "Disjoint", "OrderKnown", "Ends", "Emit"]

    def one(mode, b):
        return dict(name="prepare-" + mode, module="MCPrepare", timeout=800,
                    cfg=cfg("MCSpec", invs, dict(B=b, M=4, MODES='{"%s"}' % mode), props=["Alone", "Firm"]) + "CONSTANT MANY <- FOUR\n")
    return [one("read", 5 if th else 4), one("cv", 6 if th else 5)]


prop("P01")


def parallel_models(tier):
    th = tier == "thorough"
    full = dict(N=4, VALS='{"0", "1", "-1/2"}', ASKERS=1, OPS='{"sum", "least", "greatest", "list"}', B=0, QS=0)
    two = dict(full, N=3 if not th else 4, ASKERS=2, OPS='{"sum", "least", "greatest"}' if th else '{"sum", "greatest"}', VALS='{"0", "1"}')
    invs = ["AsAlone", "NoForce", "Covers", "GoesOn"]
    return [dict(name="spread", module="MCParallel", timeout=800, cfg=cfg("MCSpec", invs, dict(full, N=5 if th else 4))),
            dict(name="spread-two", module="MCParallel", timeout=800, cfg=cfg("MCSpec", invs, two)),
            dict(name="askers", module="MCParallel", timeout=800, cfg=cfg("HSpec", ["OneAnswer", "Emit"], dict(full, ASKERS=3, B=8 if th else 6, QS=2)))]


RULES = {"B03": ("ada", "adaboost"), "B04": ("adav", "adaboostv"), "B06": ("mada", "madaboost")}


def PLAN(p, tier, seed):
    if p in RULES:
        rule, b = RULES[p]
        mc = exp_models(rule, tier)
        return dict(mc=mc, jobs=[dict(name=b, task="exp", env={"BOOSTER": b}, specs=["TraceExpBoost"],
                                      behaviours=[m["name"] for m in mc], nbeh=2000 if tier == "thorough" else 250)])
    if p in ("B01", "B02", "B13", "B14"):
        mc = game_models(tier)
        vote = vote_models(tier) if p == "B14" else []
        return dict(mc=mc + vote, jobs=[dict(name="vote", task="vote", specs=["TraceVote"], behaviours=[m["name"] for m in vote],
                                             nbeh=1500 if tier == "thorough" else 300)][:len(vote)] + [dict(name="game", task="game", specs=["TraceGame"],
                                      behaviours=[m["name"] for m in mc], nbeh=300 if tier == "thorough" else 40)])
    if p == "B19":
        mc = game_models(tier)
        ends = [dict(name="ending-" + n, module="MCEnding",
                     cfg=cfg("MCSpec", ["Bounded", "Queries", "Early", "Fresh", "Last_"], dict(LIMIT=L, GAMES=G, EARLY=e), props=["Ends"]))
                for n, L, G, e in [("asks", 4, 3, "FALSE"), ("tests", 4, 3, "TRUE")]]
        gbm = gbm_models("quick")[:1]
        return dict(mc=mc + ends + gbm, jobs=[dict(name="game", task="game", specs=["TraceGame"],
                                      behaviours=[m["name"] for m in mc], nbeh=300 if tier == "thorough" else 40),
                                 dict(name="gbm", task="gbm", specs=["TraceGbm"], behaviours=[m["name"] for m in gbm], nbeh=60)])
    if p in MARGIN:
        mc = margin_models(p, tier)
        return dict(mc=mc, jobs=[dict(name=b, task="lp", env={"BOOSTER": b}, specs=["TraceMargin"],
                                      behaviours=[m["name"] for m in mc], nbeh=120 if tier == "thorough" else 40) for b in MARGIN[p]])
    if p in ("S01", "S02", "S03", "S04", "S05"):
        mc = table_models(p, tier)
        return dict(mc=mc, jobs=[dict(name="table", task="table", env={"TABLE": p}, specs=["TraceTable"],
                                      behaviours=[m["name"] for m in mc], nbeh=1500 if tier == "thorough" else 150)])
    if p == "B05":
        mc = smooth_models(tier)
        return dict(mc=mc, jobs=[dict(name="smoothboost", task="smooth", specs=["TraceSmooth"],
                                      behaviours=[m["name"] for m in mc], nbeh=400 if tier == "thorough" else 60)])
    if p == "B15":
        mc = sep_models(tier)
        return dict(mc=mc, jobs=[dict(name="graphsepboost", task="sep", specs=["TraceGraphSep"],
                                      behaviours=[m["name"] for m in mc], nbeh=600 if tier == "thorough" else 80)])
    if p == "B16":
        mc = gbm_models(tier)
        return dict(mc=mc, jobs=[dict(name="gbm", task="gbm", specs=["TraceGbm"],
                                      behaviours=[m["name"] for m in mc], nbeh=600 if tier == "thorough" else 120)])
    if p in ("W01", "W02", "W03"):
        mc = tree_models(p, tier)
        return dict(mc=mc, jobs=[dict(name="tree", task="tree", env={"TREE": "newton" if p == "W03" else "decision"}, specs=["TraceTree"],
                                      behaviours=[m["name"] for m in mc], nbeh=1500 if tier == "thorough" else 250)])
    if p == "W04":
        mc = bayes_models(tier)
        return dict(mc=mc, jobs=[dict(name="bayes", task="bayes", specs=["TraceNaiveBayes"],
                                      behaviours=[m["name"] for m in mc], nbeh=1500 if tier == "thorough" else 250)])
    if p == "W05":
        return dict(mc=bad_models(tier), jobs=[dict(name="bad", task="bad", specs=["TraceBadLearner"], behaviours=[], nbeh=0)])
    if p == "R01":
        return dict(mc=logger_models(tier), jobs=[dict(name="logger", task="logger", specs=["TraceLogger"], behaviours=[], nbeh=0)])
    if p == "R02":
        mc = objective_models(tier)
        return dict(mc=mc, jobs=[dict(name="objective", task="objective", specs=["TraceObjective"],
                                      behaviours=[m["name"] for m in mc], nbeh=3000 if tier == "thorough" else 400)])
    if p in ("N01", "N02"):
        mc = network_models(p, tier)
        return dict(mc=mc, jobs=[dict(name="nn", task="nn", specs=["TraceNeuralNet"],
                                      behaviours=[m["name"] for m in mc], nbeh=600 if tier == "thorough" else 100)])
    if p == "N03":
        return dict(mc=network_models(p, tier)[:1], jobs=[dict(name="nn", task="nn", env={"NN": "N03"}, specs=["TraceNeuralNet"], behaviours=[], nbeh=0)])
    if p == "B17":
        mc = simplex_models(tier)
        return dict(mc=mc, jobs=[dict(name="simplex", task="simplex", specs=["TraceSimplex"],
                                      behaviours=[m["name"] for m in mc], nbeh=1500 if tier == "thorough" else 320)])
    if p == "S08":
        mc = column_models(tier)
        tb = table_models("S05", "quick") + table_models("S02", "quick")
        return dict(mc=mc + tb, jobs=[
            dict(name="column", task="column", specs=["TraceColumn"], behaviours=["column"], nbeh=1500 if tier == "thorough" else 300),
            dict(name="table", task="table", env={"TABLE": "S08"}, specs=["TraceTable"],
                 behaviours=[m["name"] for m in tb], nbeh=1000 if tier == "thorough" else 100)])
    if p == "L01":
        mc = loss_models(tier)
        return dict(mc=mc, jobs=[dict(name="loss", task="loss", specs=["TraceLoss"],
                                      behaviours=[m["name"] for m in mc], nbeh=3000 if tier == "thorough" else 500)])
    if p == "W06":
        mc = drawing_models(tier)
        return dict(mc=mc, jobs=[dict(name="draw", task="draw", specs=["TraceDrawing"],
                                      behaviours=[m["name"] for m in mc], nbeh=1500 if tier == "thorough" else 300)])
    if p == "S06":
        mc = request_models(tier)
        return dict(mc=mc, jobs=[dict(name="request", task="request", specs=["TraceRequest"],
                                      behaviours=[m["name"] for m in mc], nbeh=12000 if tier == "thorough" else 1500)])
    if p == "B18":
        mc = settings_models(tier)
        return dict(mc=mc, jobs=[dict(name="settings", task="settings", specs=["TraceSettings"],
                                      behaviours=[m["name"] for m in mc], nbeh=3000 if tier == "thorough" else 500)])
    if p == "W07":
        mc = setup_models(tier)
        return dict(mc=mc, jobs=[dict(name="setup", task="setup", specs=["TraceLearnerSettings"],
                                      behaviours=[m["name"] for m in mc], nbeh=3000 if tier == "thorough" else 400)])
    if p == "R03":
        mc = console_models(tier)
        return dict(mc=mc, jobs=[dict(name="console", task="console", specs=["TraceConsole"],
                                      behaviours=[m["name"] for m in mc], nbeh=3000 if tier == "thorough" else 400)])
    if p == "H01":
        mc = hypo_models(tier)
        return dict(mc=mc, jobs=[dict(name="hypothesis", task="hypo", specs=["TraceHypothesis"],
                                      behaviours=[m["name"] for m in mc], nbeh=3000 if tier == "thorough" else 440)])
    if p == "S07":
        mc = prepare_models(tier)
        return dict(mc=mc, jobs=[dict(name="prepare", task="prepare", specs=["TracePrepare"],
                                      behaviours=[m["name"] for m in mc], nbeh=4000 if tier == "thorough" else 500)])
    if p == "P01":
        mc = parallel_models(tier)
        return dict(mc=mc, jobs=[dict(name="parallel", task="schedule", specs=["TraceParallel"],
                                      behaviours=["askers"], nbeh=1500 if tier == "thorough" else 200)])
    raise SystemExit("unknown property " + p)
