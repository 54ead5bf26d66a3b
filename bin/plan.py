"""What each check runs: steps per property (see check.py)."""

MODELS = []

PLAN = {
    "C01": dict(steps=[dict(do="record", n=8000, N=40000), dict(do="record", sub="C01sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=8),
                       dict(do="model", name="ScaleModel", env=dict(MAXLEN="4"), quick=True),
                       dict(do="model", name="ScaleModel", env=dict(MAXLEN="7"))]),
    "C02": dict(steps=[dict(do="record", n=8000, N=40000), dict(do="record", sub="C02sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C03": dict(steps=[dict(do="record", n=3000, N=10000), dict(do="record", sub="C03sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C04": dict(steps=[dict(do="record", n=3000, N=10000), dict(do="record", sub="C04sc", n=42, N=340)]),
    "C05": dict(steps=[dict(do="record", n=640, N=2400), dict(do="record", sub="C05sc", n=36, N=360)]),
    "C06": dict(steps=[dict(do="record", n=3000, N=12000), dict(do="record", sub="C06sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=4), dict(do="vectors", glob="class.gz", stride=8)]),
    "C07": dict(steps=[dict(do="record", n=3000, N=12000), dict(do="record", sub="C07sc", n=42, N=340), dict(do="record", sub="C07octets", n=12000, N=12000), dict(do="vectors", glob="texts.gz", stride=2),
                       dict(do="model", name="TextModel", env=dict(MAXLEN="1", EDITS="0"), quick=True),
                       dict(do="model", name="TextModel", env=dict(MAXLEN="2", EDITS="1"))]),
    "C08": dict(steps=[dict(do="record", n=3000, N=12000), dict(do="record", sub="C08sc", n=40, N=400), dict(do="vectors", glob="rules.gz", stride=8),
                       dict(do="model", name="RuleList", env=dict(MAXLEN="2"), quick=True)]),
    "C09": dict(steps=[dict(do="record", n=360, N=3000), dict(do="record", race=True, n=96, N=1000)]),
    "C10": dict(steps=[dict(do="record", n=1600, N=12000), dict(do="record", sub="C10sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C11": dict(steps=[dict(do="record", n=2000, N=12000), dict(do="record", sub="C11sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C12": dict(steps=[dict(do="record", n=2400, N=12000), dict(do="record", sub="C12sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C13": dict(steps=[dict(do="record", n=4000, N=16000), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C14": dict(steps=[dict(do="record", n=4000, N=16000), dict(do="record", sub="C14sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C15": dict(steps=[dict(do="record", n=2000, N=8000), dict(do="record", sub="C15sc", n=42, N=340), dict(do="vectors", glob="small.gz", stride=8), dict(do="vectors", glob="class.gz", stride=16)]),
    "C16": dict(steps=[dict(do="record", n=2000, N=8000), dict(do="record", sub="C16sc", n=24, N=240)]),
    "C17": dict(steps=[dict(do="record", n=6000, N=24000), dict(do="record", sub="C17sc", n=34, N=340), dict(do="vectors", glob="small.gz", stride=4)]),
    "C18": dict(steps=[dict(do="record", n=1500, N=6000), dict(do="record", sub="C18gen", n=160, N=500)]),
    "C19": dict(steps=[dict(do="record", n=3000, N=10000), dict(do="record", sub="C19sc", n=34, N=340)]),
    "C20": dict(steps=[dict(do="record", n=1600, N=6000)]),
    "C22": dict(steps=[dict(do="record", n=90, N=900)]),
    "C21": dict(steps=[dict(do="record", n=1800, N=12000)]),
}
