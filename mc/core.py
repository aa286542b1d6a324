"""
Exploration driver shared by all checks.

A check module defines

    LEVEL       "model_checking" or "exploration"
    RULE        how its cases are made and what makes one non-trivial
    cases(tier) the complete, ordered list of cases (JSON values)
    run_case(case, ctx)
                explores one case exhaustively; raises Violation (or lets any
                exception of the code under test through) when the property
                does not hold on it

Cases are distributed over forked workers.  Nothing is sampled: every case of
the list is run, and a case is a deterministic function of its JSON value, so
that the case (with the history in the violation) is the replay artefact.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = {"quick": 200, "thorough": 2400}


class Violation(Exception):
    """The property does not hold; `data` says where and how"""

    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Counters of one case (measured, and summed over all cases)"""

    def __init__(self, case):
        self.case = case
        self.tier = _tier
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.extra = {}
        self.trace = None

    def eval(self, key=None, nontrivial=True, n=1):
        """Count n executions; key identifies the input within the case"""
        self.evaluations += n
        if nontrivial:
            self.nontrivial.add(digest(key))

    def outcome(self, value):
        self.outcomes.add(digest(value))

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value)

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def digest(value):
    if isinstance(value, bytes):
        data = value
    else:
        data = repr(value).encode()
    return hashlib.blake2b(data, digest_size=8).digest()


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        pass
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist())
    return repr(x)


def reset():
    """Put the process-wide state a case can observe in its initial state"""
    import numpy as np
    import torch

    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    torch.manual_seed(977)
    np.random.seed(977)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(module, case):
    """Run one case; returns (ctx, violation or None)"""
    ctx = Ctx(case)
    limit = CASE_TIMEOUT[_tier]
    reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        module.run_case(case, ctx)
        return ctx, None
    except Violation as v:
        return ctx, {"msg": v.msg, "data": jsonable(v.data), "trace": jsonable(ctx.trace)}
    except CaseTimeout:
        return ctx, {"msg": f"no answer within {limit} s", "trace": jsonable(ctx.trace)}
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.format_exc().splitlines()[-14:]
        return ctx, {
            "msg": f"unexpected {type(e).__name__}: {e}",
            "data": {"traceback": tb},
            "trace": jsonable(ctx.trace),
        }
    finally:
        signal.alarm(0)
        reset()


_module = None
_tier = "quick"


def _result(ctx):
    return {
        "evaluations": ctx.evaluations,
        "nontrivial": len(ctx.nontrivial),
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "outcomes": list(ctx.outcomes)[:2000],
        "samples": ctx.samples,
        "extra": ctx.extra,
    }


def _worker(conn):
    """Run the cases that arrive, one result message per case"""
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the parent
    except Exception:
        pass
    try:
        while True:
            chunk = conn.recv()
            if chunk is None:
                break
            for ind, case in chunk:
                ctx, viol = run_one(_module, case)
                conn.send((ind, _result(ctx), viol))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    os._exit(0)


def explore(order, procs, chunk):
    """
    Yield (index, result, violation) of all cases, in order of completion

    A worker process that dies takes only its current case with it, which is
    run once more if the process was killed from outside and is a violation
    otherwise.  Leaving the generator ends the workers at once.
    """
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = [order[i : i + chunk] for i in range(0, len(order), chunk)][::-1]
    workers, killed = {}, set()

    def start():
        ours, theirs = ctx.Pipe()
        proc = ctx.Process(target=_worker, args=(theirs,), daemon=True)
        proc.start()
        theirs.close()
        workers[ours] = [proc, []]
        return ours

    def feed(conn):
        if todo:
            workers[conn][1] = list(todo.pop())
            conn.send(workers[conn][1])
        else:
            workers.pop(conn)[0].kill()
            conn.close()

    try:
        for _ in range(procs):
            feed(start())
        while workers:
            for conn in wait(list(workers)):
                proc, batch = workers[conn]
                try:
                    ind, res, viol = conn.recv()
                except (EOFError, ConnectionResetError, OSError):
                    proc.join(10)
                    case, rest = batch[0], batch[1:]
                    workers.pop(conn)
                    conn.close()
                    if proc.exitcode == -signal.SIGKILL and case[0] not in killed:
                        killed.add(case[0])
                        rest = [case] + rest
                    else:
                        msg = f"the process running the case died, exit code {proc.exitcode}"
                        yield case[0], _result(Ctx(case[1])), {"msg": msg}
                    if rest:
                        todo.append(rest)
                    if todo:
                        feed(start())
                    continue
                batch.pop(0)
                if not batch:
                    feed(conn)
                yield ind, res, viol
    finally:
        for proc, _ in workers.values():
            proc.kill()


def remember_paths():
    """
    Keep the contraction orders that opt_einsum finds

    Finding the order is a pure function of subscripts and shapes, and takes
    longer than the contraction for the small tensors used here.
    """
    try:
        mod = sys.modules.get("opt_einsum.contract") or importlib.import_module("opt_einsum.contract")
        original = mod.contract_path
        memo = {}

        def contract_path(*args, **kw):
            if not kw.get("einsum_call") or not isinstance(args[0], str):
                return original(*args, **kw)
            try:
                key = (args[0], tuple(tuple(a.shape) for a in args[1:]), tuple(sorted(kw.items())))
                hash(key)
            except Exception:
                return original(*args, **kw)
            if key not in memo:
                if len(memo) > 5000:
                    memo.clear()
                _, memo[key] = original(*args, **kw)
            return list(args[1:]), list(memo[key])

        mod.contract_path = contract_path
    except Exception:
        pass


def load_known(prop):
    """Findings listed in KNOWN_FINDINGS: finding: property=ID key=KEY text"""
    known = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == "finding:":
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    known[parts[2][4:]] = parts[3].strip()
    return known


def replay(prop, module, path):
    rec = json.load(open(path))
    ctx, viol = run_one(module, rec["case"])
    if viol is None:
        print(f"property {prop}: the case holds")
        return 0
    print(json.dumps(viol, indent=1)[:6000])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main(prop, module, tier):
    global _module, _tier
    _module, _tier = module, tier
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    import torch

    torch.set_num_threads(1)
    remember_paths()
    cases = module.cases(tier)
    keys = [json.dumps(c) for c in cases]
    assert len(set(keys)) == len(keys), "duplicate cases"

    # Start the most expensive cases first where the check knows them
    order = list(enumerate(cases))
    weight = getattr(module, "weight", None)
    if weight is not None:
        order.sort(key=lambda ic: -weight(ic[1]))
    procs = min(len(cases), int(os.environ.get("VERIF_PROCS", os.cpu_count() or 1)))
    chunk = getattr(module, "CHUNK", None) or max(1, min(64, len(cases) // (procs * 16)))

    known = load_known(prop)
    total = {k: 0 for k in ["evaluations", "nontrivial", "states", "transitions", "traces"]}
    outcomes, extra, samples = set(), {}, {}
    violations, hit_known = [], set()
    done = 0
    capped = None
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)

    run = explore(order, procs, chunk)
    for ind, res, viol in run:
        done += 1
        for k in total:
            total[k] += res[k]
        outcomes.update(res["outcomes"])
        for k, v in res["extra"].items():
            extra[k] = extra.get(k, 0) + v
        if res["samples"]:
            samples[ind] = res["samples"][0]
        if viol is None:
            continue
        name = keys[ind]
        if digest(name).hex() in known:
            hit_known.add(digest(name).hex())
            continue
        violations.append((ind, viol))
        if len(violations) >= 3:
            capped = "stopped at the third violating case"
            break
    run.close()

    # Report in the order of the case list, which is simplest-first
    violations.sort(key=lambda v: v[0])
    for ind, viol in violations:
        path = os.path.join(ROOT, "replays", f"{prop}-{digest(keys[ind]).hex()}.json")
        rec = {
            "property": prop,
            "case": cases[ind],
            "key": digest(keys[ind]).hex(),
            "violation": viol,
            "replay_cmd": f"./run.sh {prop} --replay {path}",
        }
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print(f"case {keys[ind]}: {viol['msg']}"[:1500])
        print(f"VIOLATION property={prop} replay={path}")
    for key, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {text}")

    picks = sorted(samples)
    picks = [picks[i] for i in sorted({0, len(picks) // 3, 2 * len(picks) // 3, len(picks) - 1})] if picks else []
    coverage = {
        "cases": done,
        "exhaustive": capped is None and done == len(cases),
        "bounds": module.bounds(tier),
        "rule": module.RULE,
        "distinct_outcomes": len(outcomes),
        "samples": [jsonable({"case": cases[i], "observed": samples[i]}) for i in picks],
    }
    if capped:
        coverage["capped"] = capped
    if module.LEVEL == "model_checking":
        coverage["states"] = total["states"]
        coverage["transitions"] = total["transitions"]
        coverage["traces_validated_against_impl"] = total["traces"]
    coverage["evaluations"] = total["evaluations"]
    coverage["distinct_nontrivial"] = total["nontrivial"]
    coverage.update(extra)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": coverage,
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{prop} {tier}: {done}/{len(cases)} cases, "
        + ", ".join(f"{k}={v}" for k, v in total.items() if v)
        + f", outcomes={len(outcomes)}, {time.time() - start:.1f} s"
    )
    return 1 if violations else 0
