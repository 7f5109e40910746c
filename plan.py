"""What decides each property: the models TLC checks, the scenario families
whose traces it judges."""

MODELS = {
    "OpsAlg": dict(module="OpsAlg", inv="Correct", quick=dict(MaxOps=2), thorough=dict(MaxOps=3)),
    "MergeAlg": dict(module="MergeAlg", inv="Correct", quick=dict(W=3, Vs="{1, 2}"), thorough={}),
    "RangeAlg": dict(module="RangeAlg", inv="Correct", prop="Ends", quick=dict(W=3, MaxOps=1), thorough=dict(W=3, MaxOps=2)),
    "RangeAlg4": dict(module="RangeAlg", inv="Correct", prop="Ends", quick=dict(W=4, MaxOps=0), thorough=dict(W=6)),
    "DumpWalk": dict(module="DumpWalk", inv="Correct", prop="Ends", quick=dict(W=3), thorough={}),
    "AwTree": dict(module="AwTree", inv="Correct", prop="Ends", quick=dict(W=3, Z=1), thorough={}),
    "RuleAlg": dict(module="RuleAlg", inv="Correct", quick=dict(MaxConds=1, Full="TRUE"), thorough={}),
    "IpdbTrie": dict(module="IpdbTrie", inv="Refines", view="View",
                     quick=dict(W=3, M='"0"', CD=1, MaxOffers=3, NumVals=2),
                     thorough=dict(W=4, M='"01"', MaxOffers=3)),
}
MODELS.update({
    "PackAlg": dict(module="PackAlg", inv="Correct", quick=dict(MaxPacks=3), thorough={}),
    "ScanAlg": dict(module="ScanAlg", inv="Correct", quick=dict(MaxLen=2), thorough={}),
})
MODELS["Service"] = dict(module="Service", inv="Correct", quick=dict(Callers="{1, 2}", MaxCalls=5, Share="FALSE"), thorough=dict(Callers="{1, 2, 3}", MaxCalls=6))
MODELS["ConvAlg"] = dict(module="ConvAlg", inv="Correct", quick=dict(W=1), thorough=dict(W=2))
MODELS["ReadersAlg"] = dict(module="ReadersAlg", inv="Agree", view="View", quick=dict(W=3, M='"0"', CD=1, JD=2, MaxOffers=2, NumVals=2), thorough=dict(MaxOffers=3))
MODELS["ReadersAlg2"] = dict(module="ReadersAlg", inv="Agree", view="View", quick=dict(W=3, M='"0"', CD=2, JD=1, MaxOffers=2, NumVals=2), thorough=dict(MaxOffers=3))
GENS = {
    "histories": dict(module="ServiceGen", inv="Gen", quick=dict(MaxLen=4), thorough=dict(MaxLen=5), limit=dict(quick=400, thorough=6000)),
    "ops": dict(module="OpsGen", inv="Gen", quick=dict(MaxOps=3), thorough={}, limit=dict(quick=500)),
    "merges": dict(module="MergeAlg", inv="Gen", quick=dict(W=3, Vs="{1, 2}"), thorough={}, limit=dict(quick=1500)),
    "ranges": dict(module="RangeAlg", inv="Gen", quick=dict(W=4, MaxOps=0), thorough=dict(W=6), view=None),
    "trie": dict(module="IpdbTrie", inv="Gen", quick=dict(W=3, M='"0"', CD=1, MaxOffers=3, NumVals=1), thorough={},
                 limit=dict(quick=1500)),
    "nets": dict(module="DumpWalk", inv="Gen", quick=dict(W=3), thorough={}),
    "rules": dict(module="RuleAlg", inv="Gen", quick=dict(MaxConds=1, Full="FALSE"), thorough={}, limit=dict(quick=700)),
}
FAMILIES = {
    "ops": dict(n=dict(quick=400, thorough=6000)),
    "opsgen": dict(gen="ops"),
    "merge": dict(n=dict(quick=150, thorough=2500)),
    "mergegen": dict(gen="merges"),
    "range": dict(n=dict(quick=250, thorough=4000)),
    "rangegen": dict(gen="ranges"),
    "addr": dict(n=dict(quick=60, thorough=800)),
    "export": dict(n=dict(quick=150, thorough=2000)),
    "exportgen": dict(gen="rules"),
    "dump": dict(n=dict(quick=60, thorough=800), stall=60),
    "dumpgen": dict(gen="nets", stall=60),
    "awdb": dict(n=dict(quick=60, thorough=800), stall=60),
    "awdbgen": dict(gen="nets", stall=60),
    "awlarge": dict(stall=60),
    "ipdb": dict(n=dict(quick=240, thorough=3000)),
    "ipdbgen": dict(gen="trie"),
    "forms": dict(n=dict(quick=60, thorough=400)),
    "scan": dict(n=dict(quick=150, thorough=2000)),
    "memip": dict(n=dict(quick=200, thorough=3000)),
    "pure": dict(n=dict(quick=150, thorough=2000)),
    "fault": dict(n=dict(quick=40, thorough=600)),
    "damage": dict(n=dict(quick=12, thorough=60)),
    "versions": dict(n=dict(quick=120, thorough=1200)),
}
FAMILIES.update({
    "history": dict(n=dict(quick=60, thorough=1000)),
    "historygen": dict(gen="histories"),
    "concurrent": dict(n=dict(quick=20, thorough=300), race=True),
    "http": dict(n=dict(quick=25, thorough=300), tools=["server"]),
})
FAMILIES["convert"] = dict(n=dict(quick=120, thorough=800), tools=["converter"])
FAMILIES["cli"] = dict(n=dict(quick=20, thorough=200), tools=["cli"])
FAMILIES["readersraw"] = dict(n=dict(quick=120, thorough=2500), tools=["readers"])
FAMILIES["readersrawgen"] = dict(gen="rawtrees", tools=["readers"])
FAMILIES["readers"] = dict(n=dict(quick=150, thorough=2500), tools=["readers"])
FAMILIES["raw"] = dict(n=dict(quick=400, thorough=8000))
FAMILIES["rawgen"] = dict(gen="rawtrees")
GENS["rawtrees"] = dict(module="RawAlg", inv="Gen", quick=dict(W=3, C=1, N=2), thorough=dict(N=3), limit=dict(thorough=6000))
FAMILIES["flip"] = dict(n=dict(quick=12, thorough=60), mem=8 << 30)
MODELS["RawAlg"] = dict(module="RawAlg", inv="Correct", prop="Ends", quick=dict(W=3, C=1, N=3), thorough=dict(W=4, C=2, N=3))
FAMILIES["data"] = dict(n=dict(quick=80, thorough=800), stall=60)
FAMILIES["datagen"] = dict(gen="data")
MODELS["DataAlg"] = dict(module="DataAlg", inv="Correct", quick=dict(Deep="FALSE", MaxCh=2), thorough=dict(Deep="TRUE", MaxCh=3))
GENS["data"] = dict(module="DataAlg", inv="Gen", quick=dict(Deep="TRUE", MaxCh=2), thorough={}, limit=dict(quick=500, thorough=8000))
MODELS["CheckAlg"] = dict(module="CheckAlg", inv="Correct", prop="Ends", quick={}, thorough={})
GENS["checks"] = dict(module="CheckAlg", inv="Gen", quick={}, thorough={})
FAMILIES["self"] = dict(n=dict(quick=80, thorough=1500))
FAMILIES["selfnear"] = dict()
FAMILIES["selfgen"] = dict(gen="checks")
FAMILIES["odd"] = dict(n=dict(quick=240, thorough=3000))
FAMILIES["layout"] = dict(n=dict(quick=180, thorough=3000))
FAMILIES["layoutgen"] = dict(gen="trie")
GENS["convfaults"] = dict(module="ConvFail", inv="Gen", quick=dict(MaxOuts=3), thorough={}, limit=dict(quick=150, thorough=2500))
MODELS["ConvFail"] = dict(module="ConvFail", inv="Correct", prop="Ends", quick=dict(MaxOuts=2), thorough=dict(MaxOuts=3))
FAMILIES["convfail"] = dict(gen="convfaults", tools=["converter"])
MODELS["JobsAlg"] = dict(module="JobsAlg", inv="Correct", quick=dict(NJobs=2, MaxPhases=2, MaxRun=2, Share='"none"'), thorough=dict(NJobs=2, MaxPhases=2, MaxRun=3))
GENS["jobs"] = dict(module="JobsGen", inv="Gen", quick=dict(MaxPhases=2), thorough={}, limit=dict(quick=120, thorough=3000))
FAMILIES["jpar"] = dict(n=dict(quick=60, thorough=1500), tools=["readers"])
FAMILIES["jobs"] = dict(gen="jobs", race=True)
PLAN = {
    "C38": dict(models=["Service"], families=["jpar"]),
    "C37": dict(models=["JobsAlg"], families=["jobs"]),
    "C36": dict(models=["ConvFail"], families=["convfail"]),
    "C35": dict(models=["IpdbTrie"], families=["layout", "layoutgen"]),
    "C31": dict(models=["PackAlg", "ScanAlg"], families=["odd"]),
    "C32": dict(models=["CheckAlg"], families=["self", "selfnear", "selfgen"]),
    "C34": dict(models=["Service"], families=["cli"]),
    "C33": dict(models=["RawAlg"], families=["readersraw", "readersrawgen"]),
    "C30": dict(models=["RawAlg"], families=["raw", "rawgen", "flip"]),
    "C25": dict(models=["DataAlg"], families=["data", "datagen"]),
    "C21": dict(models=["ReadersAlg", "ReadersAlg2"], families=["readers"]),
    "C07": dict(models=["OpsAlg", "MergeAlg", "ConvAlg"], families=["convert"]),
    "C20": dict(models=["Service"], families=["history", "historygen", "concurrent"]),
    "C22": dict(models=["Service"], families=["http"]),
    "C17": dict(models=["PackAlg"], families=["pure"]),
    "C18": dict(models=["PackAlg"], families=["fault"]),
    "C19": dict(models=["PackAlg"], families=["damage"]),
    "C26": dict(models=["MergeAlg"], families=["memip"]),
    "C27": dict(models=["ScanAlg"], families=["scan"]),
    "C28": dict(models=["ScanAlg"], families=["versions", "dump", "awdb", "convert"]),
    "C01": dict(models=["IpdbTrie"], families=["ipdb", "ipdbgen"]),
    "C02": dict(models=["IpdbTrie"], families=["ipdb", "ipdbgen"]),
    "C03": dict(models=["IpdbTrie", "AwTree"], families=["ipdb", "ipdbgen", "awdb"]),
    "C04": dict(models=["IpdbTrie", "AwTree"], families=["ipdb", "ipdbgen", "awdb"]),
    "C05": dict(models=["DumpWalk"], families=["dump", "dumpgen", "awdb", "awdbgen"]),
    "C06": dict(models=["DumpWalk"], families=["dump", "awdb"]),
    "C23": dict(models=["AwTree"], families=["awdb", "awdbgen", "awlarge"]),
    "C24": dict(models=["AwTree"], families=["awdb", "awdbgen"]),
    "C11": dict(models=["RuleAlg"], families=["export", "exportgen", "dump", "awdb"]),
    "C08": dict(models=["MergeAlg"], families=["merge", "mergegen", "opsgen", "ops"]),
    "C09": dict(models=["RangeAlg", "RangeAlg4"], families=["range", "rangegen"]),
    "C10": dict(models=["RangeAlg", "RangeAlg4"], families=["range", "rangegen"]),
    "C12": dict(models=["OpsAlg"], families=["ops", "opsgen"]),
    "C13": dict(models=["OpsAlg"], families=["ops", "opsgen"]),
    "C14": dict(models=["OpsAlg"], families=["ops", "opsgen"]),
    "C15": dict(models=["OpsAlg"], families=["ops", "opsgen"]),
    "C16": dict(models=["OpsAlg"], families=["ops", "opsgen"]),
    "C29": dict(models=["RangeAlg4"], families=["forms", "addr"]),
}
