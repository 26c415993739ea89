"""Import popsynth anew in a forked child with a home directory of its own."""

import json
import logging
import os
import shutil
import sys
import tempfile
import traceback

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
OWN = ("pv.gen", "pv.custom", "pv.rec", "pv.child", "pv.ref")


def forget():
    for m in list(sys.modules):
        if m == "popsynth" or m.startswith("popsynth.") or m in OWN:
            del sys.modules[m]
    for k in OWN:
        if hasattr(sys.modules.get("pv"), k[3:]):
            delattr(sys.modules["pv"], k[3:])
    for n in list(logging.Logger.manager.loggerDict):
        if n == "popsynth" or n.startswith("popsynth."):
            del logging.Logger.manager.loggerDict[n]


def session(job):
    """Runs in the child; returns what was observed."""
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    home = os.environ["HOME"]
    out = dict(steps=[])
    forget()
    try:
        popsynth = importlib.import_module("popsynth")
    except Exception as e:
        out["refused"] = "%s: %s" % (type(e).__name__, e)
        return out
    from omegaconf import OmegaConf

    L = importlib.import_module("popsynth.utils.logging")
    bar = importlib.import_module("popsynth.utils.progress_bar").progress_bar
    logs = [logging.getLogger("popsynth.population_synth"), L.setup_logger("popsynth.pv_probe")]
    # the handlers that were there before belong to loggers that are gone
    out["config"] = OmegaConf.to_container(popsynth.popsynth_config)
    out["cosmology"] = [float(popsynth.cosmology.Om), float(popsynth.cosmology.h0)]
    files = dict(console=job["stdout"], usr=os.path.join(home, ".log/popsynth/usr.log"),
                 dev=os.path.join(home, ".log/popsynth/dev.log"), err=job["stderr"])
    at = {k: 0 for k in files}

    def news():
        sys.stdout.flush()
        sys.stderr.flush()
        got = {}
        for k, f in files.items():
            try:
                with open(f, errors="replace") as g:
                    g.seek(at[k])
                    got[k] = g.read()
                    at[k] += len(got[k].encode())
            except FileNotFoundError:
                got[k] = ""
        return got

    count = [0]

    def probe():
        news()
        seen = {}
        for j, log in enumerate(logs):
            for lev in LEVELS:
                count[0] += 1
                mark = "mark%dx" % count[0]
                log.log(getattr(logging, lev), mark)
                got = news()
                for k in ("console", "usr", "dev", "err"):
                    n = got[k].count(mark)
                    if n:
                        seen.setdefault(k, []).append([j, lev, n])
        list(bar(range(2)))
        seen["bar"] = news()["err"] != ""
        out["steps"].append(seen)

    class Boom(Exception):
        pass

    def do(op):
        o = op[0]
        if o == "temporarily":
            try:
                with L.silence_console_log():
                    probe()
                    for x in op[1]:
                        do(x)
                    if op[2]:
                        raise Boom()
            except Boom:
                pass
            probe()
            return
        if o == "update_logging_level":
            popsynth.update_logging_level(op[1])
        elif o == "pair":
            popsynth.silence_logs()
            probe()
            popsynth.activate_logs()
        else:
            getattr(popsynth, o)()
        probe()

    probe()
    for op in job["ops"]:
        do(op)
    if job.get("spec"):
        from pv import child, gen

        news()
        b = gen.build(job["spec"])
        pop = b.synth.draw_survey(**job["spec"]["draw"])
        if job["spec"].get("again"):
            pop = b.synth.draw_survey(**job["spec"]["draw"])
        out["record"] = child.record(pop)
        got = news()
        out["survey_output"] = {k: v[:2000] for k, v in got.items()}
    return out


def run(job, config=None):
    """config: text of the user's configuration file, None if there is none.

    The child answers within its CPU limit or is a failure of the case.
    """
    d = tempfile.mkdtemp(prefix="home", dir=os.environ.get("PV_WORK"))
    try:
        cdir = os.path.join(d, ".config", "popsynth")
        cfile = os.path.join(cdir, "popsynth_config.yml")
        if config is not None:
            os.makedirs(cdir)
            with open(cfile, "w") as f:
                f.write(config)
        job = dict(job, stdout=os.path.join(d, "stdout"), stderr=os.path.join(d, "stderr"))
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                for n, fd in (("stdout", 1), ("stderr", 2)):
                    os.dup2(os.open(job[n], os.O_WRONLY | os.O_CREAT | os.O_APPEND), fd)
                os.environ["HOME"] = d
                try:
                    res = session(job)
                except BaseException:
                    res = dict(error=traceback.format_exc())
                with open(os.path.join(d, "answer"), "w") as f:
                    json.dump(res, f)
                rc = 0
            finally:
                os._exit(rc)
        os.waitpid(pid, 0)
        try:
            with open(os.path.join(d, "answer")) as f:
                res = json.load(f)
        except FileNotFoundError:
            res = dict(error="no answer")
        res["file"] = None
        if os.path.exists(cfile):
            with open(cfile) as f:
                res["file"] = f.read()
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
