"""The table of checks: which specifications TLC explores and which conformance runs are made."""
def q(n, t): return {"quick": n, "thorough": t}
CHECKS = {}

KD_MC = [dict(module="KDTreeSearch", cfg="KDTreeSearch_line.cfg"),
         dict(module="KDTreeSearch", cfg="KDTreeSearch.cfg"),
         dict(module="KDTreeSearch", cfg="KDTreeSearch_big.cfg", tiers=("thorough",), timeout=3000)]
CHECKS["C01"] = dict(mc=KD_MC, runs=[dict(src="neighbors.cpp", mode="knn", trace="NeighborsTrace", cases=q(1600, 40000))])
CHECKS["C02"] = dict(mc=KD_MC, runs=[dict(src="neighbors.cpp", mode="radius", trace="NeighborsTrace", cases=q(1600, 40000))])
KNN = ["-DWITH_KNN"]
CHECKS["C03"] = dict(mc=[dict(module="KnnVote", cfg="KnnVote.cfg"), dict(module="KnnVote", cfg="KnnVote_big.cfg", tiers=("thorough",))], runs=[dict(src="neighbors.cpp", flags=KNN, mode="clf", trace="NeighborsTrace", cases=q(1200, 30000))])
HT_MC = [dict(module="HashTreeMC", cfg="HashTree.cfg"), dict(module="HashTreeMC", cfg="HashTree_mixed.cfg"), dict(module="HashTreeMC", cfg="HashTree_big.cfg", tiers=("thorough",), timeout=2400)]
CHECKS["C04"] = dict(mc=HT_MC,
    gen=[dict(module="HashTreeGen", cfg="HashTreeGen.cfg", script="hash.script", extra=q(["-simulate", "num=100", "-depth", "60", "-seed", "@SEED"], ["-simulate", "num=2000", "-depth", "60", "-seed", "@SEED"])),
         dict(module="HashTreeGen", cfg="HashTreeGen_mixed.cfg", script="hashmixed.script", extra=q(["-simulate", "num=50", "-depth", "60", "-seed", "@SEED"], ["-simulate", "num=1000", "-depth", "60", "-seed", "@SEED"]))],
    runs=[dict(src="rules.cpp", mode="hashscript", trace="HashTreeTrace", script="hash.script", cases=q(0, 0)),
          dict(src="rules.cpp", mode="hashscriptmixed", trace="HashTreeTrace", script="hashmixed.script", cases=q(0, 0)),
          dict(src="rules.cpp", mode="hash", trace="HashTreeTrace", cases=q(1200, 20000))])
AP_MC = [dict(module="Apriori", cfg="Apriori.cfg"), dict(module="Apriori", cfg="Apriori_big.cfg", tiers=("thorough",), timeout=2400)]
CHECKS["C05"] = dict(mc=AP_MC, runs=[dict(src="rules.cpp", mode="mine", trace="AprioriTrace", cases=q(1600, 20000))])
CHECKS["C06"] = dict(mc=[dict(module="EncodingRun", cfg="EncodingRun.cfg"), dict(module="EncodingRun", cfg="EncodingRun_big.cfg", tiers=("thorough",))], runs=[dict(src="rules.cpp", mode="encode", trace="AprioriTrace", cases=q(1600, 20000))])

CHECKS["C07"] = dict(mc=[dict(module="SplitsRun", cfg="SplitsRun.cfg"), dict(module="SplitsRun", cfg="SplitsRun_big.cfg", tiers=("thorough",))], runs=[dict(src="splits.cpp", mode="", trace="SplitsTrace", cases=q(2400, 60000))])
CHECKS["C08"] = dict(mc=[dict(module="TextTableRun", cfg="TextTableRun.cfg"), dict(module="TextTableRun", cfg="TextTableRun_big.cfg", tiers=("thorough",))], runs=[dict(src="load.cpp", mode="", trace="TextTableTrace", cases=q(2400, 60000))])
SGD = dict(src="sgd.cpp", flags=["-DWITH_NESTEROV"], trace="SgdTrace")
SGD_MC = [dict(module="SgdRun", cfg="SgdRun.cfg"), dict(module="SgdRun", cfg="SgdRun_stop.cfg"), dict(module="SgdRun", cfg="SgdRun_big.cfg", tiers=("thorough",))]
CHECKS["C09"] = dict(mc=SGD_MC, runs=[dict(SGD, mode="batches", cases=q(1200, 30000))])
CHECKS["C10"] = dict(mc=SGD_MC, runs=[dict(SGD, mode="stop", cases=q(2400, 60000))])
CHECKS["C11"] = dict(mc=[dict(module="SagRun", cfg="SagRun.cfg")], runs=[dict(SGD, mode="sag", cases=q(1200, 30000))])
CHECKS["C12"] = dict(mc=[dict(module="TgRun", cfg="TgRun.cfg")], runs=[dict(SGD, mode="tg", cases=q(1200, 30000))])
CHECKS["C13"] = dict(mc=[dict(module="ScdRun", cfg="ScdRun.cfg"), dict(module="ScdRun", cfg="ScdRun_steep.cfg")], runs=[dict(SGD, mode="scd", cases=q(3000, 60000))])
CHECKS["C14"] = dict(mc=[dict(module="PolicyRun", cfg="PolicyRun.cfg")], runs=[dict(SGD, mode="policy", cases=q(3000, 60000)), dict(SGD, mode="policyrun", cases=q(800, 20000))])
CHECKS["C15"] = dict(mc=[dict(module="LbfgsRun", cfg="LbfgsRun.cfg"), dict(module="LbfgsRun", cfg="LbfgsRun_back.cfg"), dict(module="FixMathTest", cfg="FixMathTest.cfg")], runs=[dict(src="lbfgs.cpp", mode="", trace="LbfgsTrace", cases=q(1600, 40000))])
CHECKS["C16"] = dict(mc=[dict(module="LossRun", cfg="LossRun.cfg"), dict(module="LossRun", cfg="LossRun_big.cfg", tiers=("thorough",))], runs=[dict(src="losses.cpp", flags=["-DWITH_HUBER"], mode="", trace="LossTrace", cases=q(2400, 60000))])
CHECKS["C17"] = dict(mc=[dict(module="LinRun", cfg="LinRun.cfg"), dict(module="LinRun", cfg="LinRun_big.cfg", tiers=("thorough",))], runs=[dict(src="linear.cpp", flags=["-DREGRESSORS"], mode="", trace="LinearTrace", cases=q(1200, 30000))])
CHECKS["C18"] = dict(mc=[dict(module="PerceptronRun", cfg="PerceptronRun.cfg")], runs=[dict(src="linear.cpp", mode="", trace="LinearTrace", cases=q(1200, 30000))])
CHECKS["C19"] = dict(mc=[dict(module="NaiveBayesRun", cfg="NaiveBayesRun.cfg"), dict(module="NaiveBayesRun", cfg="NaiveBayesRun_multi.cfg"), dict(module="NaiveBayesRun", cfg="NaiveBayesRun_big.cfg", tiers=("thorough",))], runs=[dict(src="nb.cpp", mode="", trace="NaiveBayesTrace", cases=q(1200, 30000))])

TREE_MC = [dict(module="DecisionTreeRun", cfg="DecisionTreeRun.cfg"), dict(module="DecisionTreeRun", cfg="DecisionTreeRun_big.cfg", tiers=("thorough",), timeout=3000)]
CHECKS["C20"] = dict(mc=TREE_MC, runs=[dict(src="tree.cpp", mode="", trace="DecisionTreeTrace", cases=q(800, 20000))])
CHECKS["C21"] = dict(mc=TREE_MC, runs=[dict(src="tree.cpp", flags=["-DREGRESSION"], mode="", trace="DecisionTreeTrace", cases=q(800, 20000))])
CHECKS["C22"] = dict(mc=[dict(module="KMeansRun", cfg="KMeansRun.cfg"), dict(module="KMeansRun", cfg="KMeansRun_big.cfg", tiers=("thorough",), timeout=3000)], runs=[dict(src="kmeans.cpp", mode="", trace="KMeansTrace", cases=q(800, 20000))])
CHECKS["C23"] = dict(mc=[dict(module="GmmRun", cfg="GmmRun.cfg"), dict(module="GmmRun", cfg="GmmRun_two.cfg"), dict(module="GmmRun", cfg="GmmRun_big.cfg", tiers=("thorough",))], runs=[dict(src="gmm.cpp", mode="", trace="GaussianMixtureTrace", cases=q(1200, 30000))])
CHECKS["C24"] = dict(mc=[dict(module="DecompositionRun", cfg="DecompositionRun.cfg"), dict(module="DecompositionRun", cfg="DecompositionRun_one.cfg"), dict(module="DecompositionRun", cfg="DecompositionRun_refit.cfg"), dict(module="DecompositionRun", cfg="DecompositionRun_big.cfg", tiers=("thorough",))], runs=[dict(src="decomp.cpp", mode="", trace="DecompositionTrace", cases=q(1200, 30000))])
CHECKS["C27"] = dict(mc=[dict(module="ReductionsRun", cfg="ReductionsRun.cfg"), dict(module="ReductionsRun", cfg="ReductionsRun_shift.cfg"), dict(module="ReductionsRun", cfg="ReductionsRun_big.cfg", tiers=("thorough",))], runs=[dict(src="stats.cpp", mode="", trace="ReductionsTrace", cases=q(2000, 60000))])
CHECKS["C26"] = dict(mc=[dict(module="ArraysRun", cfg="ArraysRun.cfg"), dict(module="ArraysRun", cfg="ArraysRun_big.cfg", tiers=("thorough",))], runs=[dict(src="arrays.cpp", mode="", trace="ArraysTrace", cases=q(2400, 60000))])
CHECKS["C28"] = dict(mc=[dict(module="FactorRun", cfg="FactorRun.cfg"), dict(module="FactorRun", cfg="FactorRun_tall.cfg"), dict(module="FactorRun", cfg="FactorRun_square.cfg"), dict(module="FactorRun", cfg="FactorRun_sym.cfg"), dict(module="FactorRun", cfg="FactorRun_big.cfg", tiers=("thorough",), timeout=3600)], runs=[dict(src="factor.cpp", mode="", trace="FactorTrace", cases=q(1600, 40000))])
CHECKS["C25"] = dict(mc=[dict(module="LifecycleRun", cfg="LifecycleRun.cfg"), dict(module="LifecycleRun", cfg="LifecycleRun_big.cfg", tiers=("thorough",))],
    gen=[dict(module="LifecycleGen", cfg="LifecycleGen.cfg", script="life.script", extra=q(["-simulate", "num=120", "-depth", "30", "-seed", "@SEED"], ["-simulate", "num=2500", "-depth", "30", "-seed", "@SEED"]))],
    runs=[dict(src="lifecycle.cpp", flags=["-DGROUP=%d" % g], mode="g%d" % g, trace="LifecycleTrace", script="life.script", cases=q(k * 120, k * 2500)) for g, k in enumerate((5, 4, 5, 4))])
