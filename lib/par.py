"""Run one analysis per entry point in forked workers and merge the results."""
import multiprocessing, os
import report

_job = None


def _one(i):
    f, items, prop, tier = _job
    rep = report.Report(prop, tier)
    try:
        r = f(items[i], rep)
    except report.AnalysisError as e:
        return i, None, rep.v, rep.cov, rep.notes, str(e)
    return i, r, rep.v, rep.cov, rep.notes, None


def each(rep, items, f):
    """f(item, report) -> picklable result; returns the results in order."""
    global _job
    items = list(items)
    _job = (f, items, rep.prop, rep.tier)
    errs = []
    out = [None] * len(items)
    n = min(8, os.cpu_count() or 1, max(1, len(items)))
    if n == 1 or os.environ.get("PLY_SERIAL"):
        it = map(_one, range(len(items)))
        pool = None
    else:
        pool = multiprocessing.get_context("fork").Pool(n)
        it = pool.imap_unordered(_one, range(len(items)), 1)
    try:
        for i, r, v, cov, notes, err in it:
            if err:
                errs.append(err)
            out[i] = r
            for k, x in v.items():
                rep.v.setdefault(k, x)
            for k, x in cov.items():
                rep.cover(k, x)
            rep.notes += notes
    finally:
        if pool:
            pool.terminate()
            pool.join()
    if errs and not rep.v:
        raise report.AnalysisError(errs[0])
    return out
