"""Replay process: imports the real package (PYTHONPATH) and re-runs scenarios with concrete inputs."""
import importlib, json, os, signal, sys, traceback


def main():
    spec = json.load(open(sys.argv[1]))
    from . import replay
    replay.install()
    mod = importlib.import_module("props." + spec["pid"])
    from . import harness
    obls = {o["name"]: o for o in mod.obligations(spec["tier"])}
    try:
        if hasattr(mod, "prepare"):
            mod.prepare()
        import smt.surrogate_models  # noqa
    except Exception:
        pass
    outs = []
    for n, job in enumerate(spec["jobs"]):
        o = obls[job["obl"]]
        f = sys.argv[2] + ".%d" % n
        pid = os.fork()
        if pid == 0:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            signal.alarm(45)
            try:
                r = harness.run_concrete(o["fn"], o.get("kwargs", {}), spec["tier"], job["env"])
            except BaseException as e:
                r = dict(error="%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-800:]))
            json.dump(r, open(f, "w"), default=str)
            os._exit(0)
        os.waitpid(pid, 0)
        try:
            outs.append(json.load(open(f)))
            os.unlink(f)
        except Exception:
            outs.append(dict(error="replay died (time limit)"))
    json.dump(outs, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
