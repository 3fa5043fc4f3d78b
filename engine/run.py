"""Driver: symbolic obligations in parallel processes, replay of every counterexample, evidence, verdict."""
import importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SMT_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_JOBS", "7"))


def load(pid):
    m = importlib.import_module("props." + pid)
    return m


def child(obl, path, tier):
    from . import harness
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        sys.setrecursionlimit(20000)
        r = harness.run_symbolic(obl['fn'], obl.get('kwargs', {}), tier, obl.get('opts', {}))
    except BaseException as e:
        r = dict(status='crash', error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-2500:])
    with open(path, 'w') as f:
        json.dump(r, f, default=str)
    os._exit(0)


def symbolic(obls, tier, scratch, limit):
    """fork one process per obligation"""
    pend = list(range(len(obls)))
    run = {}
    res = [None] * len(obls)
    t_end = time.time() + limit
    while pend or run:
        while pend and len(run) < NPROC:
            i = pend.pop(0)
            if time.time() > t_end:
                res[i] = dict(status='not run (time)')
                continue
            p = os.path.join(scratch, "r%d.json" % i)
            pid = os.fork()
            if pid == 0:
                child(obls[i], p, tier)
            run[pid] = (i, p, time.time() + obls[i].get('opts', {}).get('time', 150) + 45)
        time.sleep(0.02)
        for pid in list(run):
            i, p, dl = run[pid]
            try:
                w, st = os.waitpid(pid, os.WNOHANG)
            except ChildProcessError:
                w = pid
            if w:
                del run[pid]
                try:
                    res[i] = json.load(open(p))
                except Exception as e:
                    res[i] = dict(status='crash', error='no result (status %r)' % (st,))
            elif time.time() > min(dl, t_end + 60):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del run[pid]
                res[i] = dict(status='timeout', error='killed')
    return res


def build_cpp(scratch):
    """scratch copy of the package with extensions rebuilt from the current sources"""
    d = os.path.join(scratch, "repo")
    os.makedirs(d)
    ign = shutil.ignore_patterns("*.so", "__pycache__", "tests", "examples", "idwclib.cpp", "rbfclib.cpp", "rmtsclib.cpp")
    shutil.copytree(os.path.join(REPO, "smt"), os.path.join(d, "smt"), ignore=ign)
    for f in ("setup.py", "README.md", "LICENSE.txt", "setup.cfg", "pyproject.toml", "MANIFEST.in"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), d)
    p = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j", "3"], cwd=d, capture_output=True, text=True, timeout=400)
    if p.returncode != 0:
        return None, p.stderr[-1500:]
    return d, ""


def concrete(jobs, pid, tier, scratch, repo, tag):
    """jobs: [{obl: name, env: {...}}] -> list of results"""
    if not jobs:
        return []
    jf, of = os.path.join(scratch, "jobs%s.json" % tag), os.path.join(scratch, "out%s.json" % tag)
    json.dump(dict(pid=pid, tier=tier, jobs=jobs), open(jf, "w"))
    env = dict(os.environ)
    env["PYTHONPATH"] = repo + os.pathsep + ROOT
    env["SMT_REPO"] = repo
    p = subprocess.run([PY, "-m", "engine.concrete", jf, of], cwd=scratch, env=env, capture_output=True, text=True,
                       timeout=60 + 45 * len(jobs))
    if p.returncode != 0 or not os.path.exists(of):
        raise RuntimeError("replay process failed: " + p.stderr[-1500:])
    return json.load(open(of))


def known(pid):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]


def main():
    if sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="smtverif_")
    try:
        code = check(pid, tier, only, scratch, t0)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % pid)
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def check(pid, tier, only, scratch, t0):
    sys.path.insert(0, ROOT)
    mod = load(pid)
    obls = mod.obligations(tier)
    if only:
        obls = [o for o in obls if re.search(only, o['name'])]
    needs_cpp = getattr(mod, 'NEEDS_CPP', False)
    conc_repo = REPO
    bp = None
    from . import sym, shim, harness
    cppinfo = {}
    pre_err = None
    rd, wr = None, None
    if needs_cpp:
        # rebuild in a background process while the symbolic part runs
        bp = os.fork()
        if bp == 0:
            r = build_cpp(scratch)
            json.dump(r, open(os.path.join(scratch, "build.json"), "w"))
            os._exit(0)
    shim.install(REPO)
    harness.start_monitor(REPO)
    if needs_cpp:
        from . import cppmod
        try:
            cppinfo = cppmod.install(REPO, scratch)
        except sym.Unsupported as e:
            print("ERROR property=%s cannot lower the C++ sources: %s" % (pid, e))
            return 2
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare()
        import smt.surrogate_models      # noqa
    except Exception as e:
        pre_err = traceback.format_exc()
    limit = {'quick': 560, 'thorough': 3000}.get(tier, 560)
    res = symbolic(obls, tier, scratch, limit)
    if bp:
        os.waitpid(bp, 0)
        d, err = json.load(open(os.path.join(scratch, "build.json")))
        if d is None:
            print("ERROR property=%s extension build failed: %s" % (pid, err))
            return 2
        conc_repo = d
    # ---- replays
    jobs, meta = [], []
    for i, r in enumerate(res):
        seen = {}
        for c in r.get('cands', []):
            base = c['label'].split('[')[0]
            if seen.get(base, 0) >= 6:
                continue
            seen[base] = seen.get(base, 0) + 1
            jobs.append(dict(obl=obls[i]['name'], env=c['env']))
            meta.append((i, 'cand', c))
        for e in r.get('exc', [])[:3]:
            for env in (e['envs'] or [{}])[:2]:
                jobs.append(dict(obl=obls[i]['name'], env=env))
                meta.append((i, 'exc', e))
        for w in r.get('witness', [])[:1]:
            jobs.append(dict(obl=obls[i]['name'], env=w['env']))
            meta.append((i, 'wit', w))
    nj = len(jobs)
    outs = []
    if jobs:
        k = min(6, max(1, nj // 2))
        chunks = [list(range(a, nj, k)) for a in range(k)]
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(k) as ex:
            fs = [ex.submit(concrete, [jobs[j] for j in ch], pid, tier, scratch, conc_repo, str(n)) for n, ch in enumerate(chunks)]
            parts = [f.result() for f in fs]
        outs = [None] * nj
        for ch, part in zip(chunks, parts):
            for j, o in zip(ch, part):
                outs[j] = o
    viol, unrep, engine_err, matched, mism = [], [], [], 0, []
    confirmed = set()
    for (i, kind, c), o in zip(meta, outs):
        name = obls[i]['name']
        if o.get('error'):
            engine_err.append((name, o['error']))
            continue
        if kind == 'wit':
            if o['exc']:
                mism.append((name, 'witness raised ' + o['exc']))
                viol.append(dict(obl=name, label='exception', env=c['env'], detail=o['exc'], tb=o.get('tb', ''), how='witness'))
                continue
            if o['fails']:
                viol.append(dict(obl=name, label=o['fails'][0][0], env=c['env'], detail=o['fails'][0][1], how='witness'))
                confirmed.add((i, o['fails'][0][0].split('[')[0]))
                continue
            ok = True
            A, B = {}, {}
            for src, dst in ((c['trace'], A), (o['trace'], B)):
                for l, v in src:
                    dst.setdefault(l, []).append(v)
            for l in A:
                if ok and len(A[l]) == len(B.get(l, [])):
                    for v1, v2 in zip(A[l], B[l]):
                        if v1 is None or v2 is None or abs(v1 - v2) > 1e-4 * (1 + abs(v1)):
                            ok = False
                            mism.append((name, "%s sym=%r real=%r" % (l, v1, v2)))
                            break
            if ok:
                matched += 1
        elif kind == 'cand':
            labs = {f[0].split('[')[0] for f in o['fails']}
            want = c['label'].split('[')[0]
            if want in labs:
                det = [f for f in o['fails'] if f[0].split('[')[0] == want][0]
                viol.append(dict(obl=name, label=want, env=c['env'], detail=det[1], how=c['stage']))
                confirmed.add((i, want))
            elif labs:
                det = o['fails'][0]
                viol.append(dict(obl=name, label=det[0].split('[')[0], env=c['env'], detail=det[1], how=c['stage']))
                confirmed.add((i, want))
            elif o['exc']:
                viol.append(dict(obl=name, label='exception', env=c['env'], detail=o['exc'], tb=o.get('tb', ''), how=c['stage']))
                confirmed.add((i, want))
            else:
                unrep.append((i, want, name, c))
        else:
            if o['exc']:
                viol.append(dict(obl=name, label='exception', env=jobs[0]['env'] if False else c['envs'][0] if c['envs'] else {}, detail=o['exc'], tb=o.get('tb', ''), how='exception'))
                confirmed.add((i, 'exc'))
            else:
                if o['fails']:
                    viol.append(dict(obl=name, label=o['fails'][0][0].split('[')[0], env=c['envs'][0] if c['envs'] else {}, detail=o['fails'][0][1], how='exception path'))
                    confirmed.add((i, 'exc'))
                else:
                    engine_err.append((name, "engine: %s: %s\n%s" % (c['type'], c['msg'], c['tb'])))
    unrep = [u for u in unrep if (u[0], u[1]) not in confirmed]
    engine_err = [e for e in engine_err if not any(obls[i]['name'] == e[0] for i, _ in confirmed)]
    # ---- inconclusive parts
    incon = []
    for i, r in enumerate(res):
        n = obls[i]['name']
        if r['status'] not in ('complete', 'stopped'):
            if not (r['status'] in ('timeout', 'max_paths') and obls[i].get('opts', {}).get('partial_ok') and r.get('reached')):
                incon.append((n, r['status'] + ' ' + str(r.get('error', '')) + r.get('tb', '')))
        for c in r.get('incon', []):
            if (i, c['label'].split('[')[0]) not in confirmed:
                incon.append((n, "%s: %s (%s) %s" % (c['label'], c['verdict'], c['stage'], c['why'])))
        if r['status'] in ('complete', 'stopped') and not r.get('reached') and not r.get('exc') and not obls[i].get('opts', {}).get('may_be_empty'):
            if not r.get('cands'):
                incon.append((n, "vacuous: no feasible path reached a check"))
    for i, want, name, c in unrep:
        incon.append((name, "counterexample for %s does not reproduce on the real code (value %.3g, env %s)" % (want, c['value'], json.dumps(c['env'])[:300])))
    for n, e in engine_err:
        incon.append((n, e))
    # ---- known findings
    kf = known(pid)
    rest, hit = [], {}
    for v in viol:
        for k in kf:
            if k.get('status') == 'fixed':
                continue
            if re.fullmatch(k['obligation'], v['obl']) and re.fullmatch(k['label'], v['label']):
                hit.setdefault(k['id'], []).append(v)
                break
        else:
            rest.append(v)
    for k in kf:
        if k.get('status') != 'fixed' and (not only) and tier in k.get('tiers', [tier]):
            print("KNOWN-FINDING: property=%s %s%s" % (pid, k['what'], "" if k['id'] in hit else " [not re-observed in this run]"))
    bad_obl = {n for n, _ in incon}
    wall = time.time() - t0
    evidence(pid, tier, obls, res, mod, rest, hit, incon, matched, mism, nj, wall, cppinfo)
    tot = len(obls)
    npaths = sum(r.get('paths', 0) for r in res)
    nq = sum(r.get('stats', {}).get('queries', 0) + r.get('feas_queries', 0) for r in res)
    print("property=%s tier=%s obligations=%d paths=%d queries=%d solver=%.1fs witnesses matched=%d wall=%.1fs"
          % (pid, tier, tot, npaths, nq, sum(r.get('stats', {}).get('solver_time', 0) + r.get('feas_time', 0) for r in res), matched, wall))
    for n, why in incon[:40]:
        print("INCONCLUSIVE property=%s obligation=%s: %s" % (pid, n, why if os.environ.get("VERIF_DEBUG") else why[-600:]))
    for n, why in mism[:10]:
        print("TRANSLATION-MISMATCH property=%s obligation=%s: %s" % (pid, n, why))
    if rest:
        rd = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for n, v in enumerate(rest):
            k = (v['obl'], v['label'])
            if k in shown or len(shown) >= int(os.environ.get("VERIF_SHOW", "10")):
                continue
            shown.add(k)
            path = os.path.join(rd, "%s-%d.json" % (pid, n))
            json.dump(dict(property=pid, tier=tier, obligation=v['obl'], label=v['label'], env=v['env'], detail=v['detail'],
                           traceback=v.get('tb', '')), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   obligation %s, check %s: %s [%s]" % (v['obl'], v['label'], v['detail'], v['how']))
        return 1
    if len(bad_obl) * 4 > tot or (tot and not npaths):
        print("ERROR property=%s: %d of %d obligations undecided" % (pid, len(bad_obl), tot))
        return 2
    if bad_obl and os.environ.get("VERIF_STRICT"):
        return 2
    print("OK property=%s held on everything explored" % pid)
    return 0


def evidence(pid, tier, obls, res, mod, viol, hit, incon, matched, mism, nj, wall, cppinfo):
    g = lambda k: sum(r.get(k, 0) or 0 for r in res)
    st = lambda k: sum(r.get('stats', {}).get(k, 0) for r in res)
    enc = sorted({e for r in res for e in r.get('encoded', [])}) + sorted(cppinfo.get('functions', []))
    ass = sorted({a for r in res for a in r.get('assumptions', [])})
    cov = dict(
        explanation="states = explored path end states, transitions = solver-decided branch points; symbolic execution of the code in /repo; every check is an SMT query for the negated assertion under the path condition",
        obligations=len(obls), obligations_decided=len(obls) - len({n for n, _ in incon}),
        states=g('paths'), transitions=g('feas_queries'), traces_validated_against_impl=matched,
        samples=[dict(obligation=o['name'], inputs=dict(list(w['env'].items())[:30]), checked_values=w['trace'][:8])
                 for o, r in list(zip(obls, res))[:40] for w in r.get('witness', [])[:1]][:3],
        infeasible_paths=g('infeasible'), paths_reaching_a_check=g('reached'),
        checks=st('checks'), assertion_queries=st('queries'),
        unsat=st('unsat'), sat=st('sat'), unknown=st('unknown'), closed_by_normal_form=st('identity'),
        solver_seconds=round(st('solver_time') + g('feas_time'), 3), replays=nj,
        translation_mismatches=["%s: %s" % x for x in mism][:20],
        functions_encoded=enc, bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
        per_obligation=[dict(name=o['name'], status=r['status'], paths=r.get('paths', 0), reached=r.get('reached', 0),
                             checks=r.get('stats', {}).get('checks', 0), wall=round(r.get('wall', 0), 2), labels=r.get('labels', {}),
                             equality_paths_skipped=r.get('skipped_eq', 0))
                        for o, r in zip(obls, res)],
        inconclusive=["%s: %s" % (n, w[:300]) for n, w in incon],
        known_findings_observed={k: len(v) for k, v in hit.items()},
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=getattr(mod, 'LEVEL', 'model_checking'),
              coverage=cov,
              assumptions=["doubles are modelled as reals (tolerance of each comparison stated in the obligation, default 1e-7)"]
              + list(getattr(mod, 'ASSUMPTIONS', [])) + ass,
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)


def replay_file(path):
    d = json.load(open(path))
    sys.path.insert(0, ROOT)
    scratch = tempfile.mkdtemp(prefix="smtverif_")
    try:
        mod = load(d['property'])
        repo = REPO
        if getattr(mod, 'NEEDS_CPP', False):
            repo, err = build_cpp(scratch)
            if repo is None:
                print(err)
                return 2
        o = concrete([dict(obl=d['obligation'], env=d['env'])], d['property'], d['tier'], scratch, repo, "r")[0]
        print(json.dumps(o, indent=1))
        bad = bool(o.get('fails') or o.get('exc'))
        print("REPRODUCED" if bad else "NOT REPRODUCED")
        code = 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
