"""What each check runs: (package, unit, share of the time, cases in the quick tier)."""

# harness directory -> place in the module (default zzverif/<dir>)
PLACES = {"registry": "goroutines/zzverifregistry", "queue": "pipelines/stagedpipe/zzverifqueue"}

COMMON = [
    "Go 1.26 toolchain, its race detector and testing/synctest (virtual time, deadlock and leak detection)",
    "the schedules explored are those that the schedule points inserted before every statement and around every atomic operation can bring about",
]

P = ["goroutines/"]

W = ["prim/wait/"]

PIPE = ["pipelines/stagedpipe/stage", "pipelines/stagedpipe/stats"]

PROPS = {
    "C01": {"units": [("pools", "pools.storm", 3, 6000), ("pools", "pools.model", 3, 6000)], "files": P},
    "C02": {"units": [("pools", "pools.storm", 3, 6000), ("pools", "pools.model", 4, 8000)], "files": P},
    "C03": {"units": [("pools", "pools.model", 1, 12000)], "files": P},
    "C04": {"units": [("pools", "pools.storm", 4, 8000), ("pools", "pools.model", 2, 4000)], "files": P},
    "C05": {"units": [("pools", "pools.names", 1, 12000)], "files": P},
    "C06": {"units": [("pools", "pools.model", 1, 6000), ("pools", "pools.storm", 1, 6000)], "files": P},
    "C08": {"units": [("prims", "wait.group", 1, 10000)], "files": W},
    "C09": {"units": [("prims", "wait.group", 1, 10000)], "files": W},
    "C10": {"units": [("prims", "wait.group", 1, 10000)], "files": W},
    "C11": {"units": [("prims", "wait.group", 1, 10000)], "files": W},
    "C12": {"units": [("prims", "slices.access", 1, 10000)], "files": ["prim/slices/"]},
    "C13": {"units": [("prims", "slices.access", 1, 10000)], "files": ["prim/slices/"]},
    "C14": {"units": [("prims", "chans", 1, 10000)], "files": ["prim/chans/"]},
    "C15": {"units": [("prims", "chans", 1, 10000)], "files": ["prim/chans/"]},
    "C16": {"units": [("prims", "chans", 1, 10000)], "files": ["prim/chans/"]},
    "C17": {"units": [("prims", "chans", 1, 5000), ("prims", "slices.access", 1, 5000)], "files": ["prim/chans/", "prim/slices/"]},
    "C18": {"units": [("prims", "rwvalue", 1, 12000)], "files": ["prim/atomics/"]},
    "C19": {"units": [("prims", "rwvalue", 1, 12000)], "files": ["prim/atomics/"]},
    "C20": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C21": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C22": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C23": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C24": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C25": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C26": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C27": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C28": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C29": {"units": [("pipe", "pipe.flow", 1, 4000)], "files": PIPE},
    "C30": {"units": [("pipe", "pipe.flow", 3, 4000), ("prims", "wait.group", 1, 4000), ("prims", "slices.access", 0.5, 1500), ("prims", "chans", 0.5, 1500), ("pools", "pools.storm", 0.5, 1500), ("pools", "pools.model", 0.5, 1500)], "files": PIPE + ["prim/", "goroutines/"]},
    "C31": {"units": [("queue", "queue", 4, 6000), ("queue", "queue.backlog", 1, 400)], "files": ["pipelines/stagedpipe/internal/queue/"]},
    "C32": {"script": "cli"},
    "C33": {"units": [("pipe", "pipe.new", 1, 4000)], "files": ["pipelines/stagedpipe/stage"]},
    "C34": {"units": [("registry", "registry", 1, 8000)], "files": P},
    "C35": {"units": [("prims", "refused", 1, 8000)], "files": ["prim/"]},
    "C36": {"units": [("otel", "otel.pools", 1, 10000)], "files": P},
    "C37": {"units": [("otel", "otel.prims", 1, 10000)], "files": ["prim/"]},
    "C38": {"units": [("otel", "otel.pipe", 1, 8000)], "files": PIPE},
    "C07": {"units": [("pools", "pools.errors", 1, 10000)], "files": P},
}

# For trying out changes: every oracle of a part of the library at once. Not registered as checks.
PROPS.update({
    "X01": {"focus": "", "units": [("pools", "pools.storm", 3, 4000), ("pools", "pools.model", 3, 4000), ("pools", "pools.names", 1, 4000), ("pools", "pools.errors", 1, 3000)], "files": P},
    "X08": {"focus": "", "units": [("prims", "wait.group", 1, 8000)], "files": W},
    "X12": {"focus": "", "units": [("prims", "slices.access", 1, 8000)], "files": ["prim/slices/"]},
    "X14": {"focus": "", "units": [("prims", "chans", 1, 8000)], "files": ["prim/chans/"]},
    "X18": {"focus": "", "units": [("prims", "rwvalue", 1, 8000)], "files": ["prim/atomics/"]},
    "X20": {"focus": "", "units": [("pipe", "pipe.flow", 4, 3000), ("pipe", "pipe.new", 1, 2000)], "files": PIPE, "soft_quick": 14},
    "X31": {"focus": "", "units": [("queue", "queue", 4, 4000), ("queue", "queue.backlog", 1, 300)], "files": []},
    "X34": {"focus": "", "units": [("registry", "registry", 1, 4000)], "files": P},
})
