"""Runs some phases of one check on one shard, in its own process."""
import importlib
import json
import os
import sys
import traceback

import numpy as np


def main():
    spec = json.loads(sys.argv[1])
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from mc.core import Ctx, Stop
    out = dict(phases=[], error=None)
    states, outcomes = [], []
    ctx = None
    try:
        mod = importlib.import_module("mc.checks." + spec["prop"].lower())
        fns = {f.phase["name"]: f for f in vars(mod).values() if callable(f) and hasattr(f, "phase")}
        for name in spec["phases"]:
            ctx = Ctx(spec["prop"], name, spec["tier"], spec["shard"], spec["nshards"], spec.get("only"),
                      spec.get("progress"), spec.get("seed", 0))
            stopped = False
            try:
                fns[name](ctx)
            except Stop:
                stopped = True
            out["phases"].append(dict(name=name, cases=ctx.cases_run, transitions=ctx.transitions, traces=ctx.traces,
                                      fails=ctx.fails, known=ctx.known, samples=ctx.samples, stopped=stopped,
                                      capped=ctx.capped))
            states.extend(ctx.states)
            outcomes.extend(ctx.outcomes)
            if stopped:
                break
    except BaseException as e:
        tb, mine = e.__traceback__, False
        while tb is not None:
            mine |= "/finmlkit/" in tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        msg = traceback.format_exc()
        if mine and ctx is not None and isinstance(e, Exception):      # the implementation raised outside a case
            out["phases"].append(dict(name=ctx.name, cases=ctx.cases_run, transitions=ctx.transitions, traces=ctx.traces,
                                      fails=ctx.fails + [dict(phase=ctx.name, index=max(ctx.index, 0), case=repr(ctx.case)[:4000],
                                                              message="unexpected exception:\n" + msg[-2500:], detail={})],
                                      known=ctx.known, samples=ctx.samples, stopped=True, capped=False))
        else:
            out["error"] = msg
    np.save(spec["out"] + ".states.npy", np.array(sorted(states), dtype=np.uint64))
    np.save(spec["out"] + ".outc.npy", np.array(sorted(outcomes), dtype=np.uint64))
    with open(spec["out"] + ".tmp", "w") as f:
        json.dump(out, f)
    os.replace(spec["out"] + ".tmp", spec["out"])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
