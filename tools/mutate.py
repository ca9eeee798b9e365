#!/usr/bin/env python3
"""mutate.py OUT.jsonl WORKERS JOBS N [file-substring...]: mutation testing of the checks.  Applies one-line mutations to a copy of /repo,
runs the checks that map to the file until one reports a violation, and logs survivors."""
import sys, os, re, random, subprocess, shutil, json, hashlib, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "include/boost/thread/"; P = T + "pthread/"
MAP = {
 P+"mutex.hpp": "M02 M01", P+"recursive_mutex.hpp": "M02 M03 M01 X01", P+"shared_mutex.hpp": "S04 S02 S01 S03", T+"v2/shared_mutex.hpp": "S05 I02",
 T+"lock_types.hpp": "L01", T+"lock_algorithms.hpp": "L02", T+"reverse_lock.hpp": "L01", T+"lock_guard.hpp": "L01", T+"shared_lock_guard.hpp": "L01", T+"strict_lock.hpp": "L01", T+"lock_factories.hpp": "L01", T+"with_lock_guard.hpp": "L01",
 P+"condition_variable.hpp": "C02 C01 C03 I01 C04", P+"condition_variable_fwd.hpp": "C02 C01 I01", T+"detail/platform_time.hpp": "C02 N01 M02",
 "src/pthread/thread.cpp": "T01 T03 T04 I01 I02 C04 T02 N01 F05 X01 T05", P+"thread_data.hpp": "T01 I01 T02 T03 C04 N01 X01", T+"detail/thread.hpp": "T02 T01 T03 I01 X01",
 P+"once_atomic.hpp": "O01", "src/pthread/once_atomic.cpp": "O01", P+"once.hpp": "O01", "src/pthread/once.cpp": "O01",
 T+"barrier.hpp": "B01", T+"latch.hpp": "B02", T+"completion_latch.hpp": "B03",
 T+"future.hpp": "F02 F01 F03 F04 F06 F07 F08 F09 F05 X01", T+"futures/wait_for_any.hpp": "F09", T+"futures/wait_for_all.hpp": "F09",
 T+"concurrent_queues/sync_queue.hpp": "Q01 Q03", T+"concurrent_queues/sync_deque.hpp": "Q01 Q03", T+"concurrent_queues/detail/sync_queue_base.hpp": "Q01 Q03 Q04", T+"concurrent_queues/detail/sync_deque_base.hpp": "Q01 Q03",
 T+"concurrent_queues/sync_bounded_queue.hpp": "Q02 Q03", T+"concurrent_queues/sync_priority_queue.hpp": "Q04 Q03", T+"concurrent_queues/sync_timed_queue.hpp": "Q04 Q03",
 T+"concurrent_queues/queue_adaptor.hpp": "Q01 Q03", T+"concurrent_queues/deque_adaptor.hpp": "Q01 Q03", T+"concurrent_queues/queue_views.hpp": "Q01 Q03", T+"concurrent_queues/deque_views.hpp": "Q01 Q03",
 T+"csbl/devector.hpp": "Q01", T+"executors/basic_thread_pool.hpp": "E01 X01", T+"executors/serial_executor.hpp": "E02", T+"executors/serial_executor_cont.hpp": "E02", T+"executors/loop_executor.hpp": "E03", T+"executors/inline_executor.hpp": "E03",
 T+"executors/thread_executor.hpp": "E03", T+"executors/scheduler.hpp": "E04", T+"executors/scheduling_adaptor.hpp": "E04", T+"executors/scheduled_thread_pool.hpp": "E04 E01", T+"executors/detail/scheduled_executor_base.hpp": "E04", T+"executors/detail/priority_executor_base.hpp": "E04",
 T+"executors/executor_adaptor.hpp": "E01 E03", T+"executors/executor.hpp": "E01 E03", T+"executors/generic_executor_ref.hpp": "E01 E03", T+"executors/work.hpp": "E01",
 T+"synchronized_value.hpp": "V01", T+"externally_locked.hpp": "V01", T+"externally_locked_stream.hpp": "V01", T+"experimental/parallel/v2/task_region.hpp": "R01", T+"experimental/parallel/v1/exception_list.hpp": "R01",
 T+"detail/thread_group.hpp": "T05 X01", T+"scoped_thread.hpp": "T05", T+"thread_guard.hpp": "T05", T+"thread_functors.hpp": "T05", T+"tss.hpp": "T04", T+"detail/nullary_function.hpp": "E01", "src/future.cpp": "F01", T+"testable_mutex.hpp": "L03", T+"null_mutex.hpp": "L03", T+"lockable_adapter.hpp": "L01 L03", T+"user_scheduler.hpp": "E03",
}
OPS = set(filter(None, os.environ.get("OPS", "").split(",")))
def muts(lines):
    """yields (line index, new line(s), description)"""
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "namespace", "typedef", "using", "template", "public:", "private:", "protected:", "BOOST_ASSERT", "BOOST_STATIC_ASSERT", "friend", "case ", "default:")): continue
        code = re.sub(r"//.*", "", l); ind = re.match(r"\s*", l).group(0)
        def m(new, d):
            if new != l: return (i, new, d)
        out = []
        if "notify_all()" in code: out.append(m(l.replace("notify_all()", "notify_one()"), "all->one"))
        if re.search(r"pthread_cond_broadcast", code): out.append(m(l.replace("pthread_cond_broadcast", "pthread_cond_signal"), "broadcast->signal"))
        if re.match(r"\s*while\s*\(", code) and "do" not in code: out.append(m(re.sub(r"while\s*\(", "if (", l, count=1), "while->if"))
        if re.match(r"^\s*[A-Za-z_:][\w:.\->()*&\[\], <>+=!\"]*;\s*$", code) and not re.match(r"\s*(return|break|continue|throw|goto|typedef|using|const|mutable|bool|int|unsigned|void|size_t|static|extern|class|struct|friend|else|do|virtual|explicit|inline|operator)\b", code) and "(" in code + "=" and (("=" in code) or re.match(r"^\s*[\w:.\->()*]+\(.*\);\s*$", code) or "++" in code or "--" in code) and not re.match(r"^\s*[\w:<>, ]+[ &*]\s*\w+\s*(=|\()", code.replace("this->", "")): out.append(m(ind + ";\n", "delete statement"))
        if re.match(r"^\s*(boost::|::boost::)?(lock_guard|unique_lock|shared_lock|pthread::pthread_mutex_scoped_lock|detail::\w*lock\w*)\s*<?.*;\s*$", code): out.append(m(ind + ";\n", "delete lock"))
        if re.match(r"\s*(else\s+)?if\s*\(.*\)\s*\{?\s*$", code):
            mm = re.match(r"(\s*(?:else\s+)?if\s*\()(.*)(\)\s*\{?\s*)$", code.rstrip("\n"))
            if mm: out += [m(mm.group(1) + "!(" + mm.group(2) + ")" + mm.group(3) + "\n", "negate"), m(mm.group(1) + "false && (" + mm.group(2) + ")" + mm.group(3) + "\n", "if false"), m(mm.group(1) + "true || (" + mm.group(2) + ")" + mm.group(3) + "\n", "if true")]
        if re.search(r"\bif\b|\breturn\b|\bwhile\b|=", code):
            if "&&" in code: out.append(m(l.replace("&&", "||", 1), "&&->||"))
            if "||" in code: out.append(m(l.replace("||", "&&", 1), "||->&&"))
            if "==" in code: out.append(m(l.replace("==", "!=", 1), "==->!="))
            if "!=" in code: out.append(m(l.replace("!=", "==", 1), "!=->=="))
            if re.search(r"\btrue\b", code): out.append(m(re.sub(r"\btrue\b", "false", l, count=1), "true->false"))
            if re.search(r"\bfalse\b", code): out.append(m(re.sub(r"\bfalse\b", "true", l, count=1), "false->true"))
            if re.search(r"[^<]<[^<=]", code) and re.search(r" < ", code): out.append(m(l.replace(" < ", " <= ", 1), "<-><="))
            if " <= " in code: out.append(m(l.replace(" <= ", " < ", 1), "<=-><"))
            if " >= " in code: out.append(m(l.replace(" >= ", " > ", 1), ">=->>"))
            if re.search(r"[+] ?1\b", code): out.append(m(re.sub(r"[+] ?1\b", "+ 2", l, count=1), "+1->+2"))
        if "++" in code: out.append(m(l.replace("++", "--", 1), "++->--"))
        if "--" in code: out.append(m(l.replace("--", "++", 1), "--->++"))
        mo = re.search(r"memory_order_(acquire|release|acq_rel|seq_cst)", code)
        if mo: out.append(m(l.replace(mo.group(0), "memory_order_relaxed", 1), "relaxed"))
        if re.match(r"\s*return\s+[^;]+;\s*$", code) and re.search(r"return\s+(!)?[\w.>()-]+;", code) and not re.search(r"return (true|false|\*this)", code): out.append(m(re.sub(r"return\s+(.*);", r"return !(\1);", l), "return !"))
        st = r"^\s*(?!\s|return|inline|static|virtual|explicit|using|struct|class|extern|mutable|break|continue|throw|goto|typedef|using|case|default|public|private|else|friend|const|template|BOOST_ASSERT|BOOST_THREAD_ASSERT)[\w:.\->()*&!+<>\[\], =\"]+;\s*$"
        if re.match(st, code) and i + 1 < len(lines) and re.match(st, lines[i + 1]) and lines[i + 1] != l: out.append((i, lines[i + 1] + l, "swap", 2))
        if re.match(st, code) and i + 1 < len(lines) and lines[i + 1].strip() == "}": out.append((i, ind[:-2] + "}\n" + l, "out of the block", 2))
        for x in out:
            if x and (not OPS or x[2] in OPS): yield x
def main():
    outp, W, J, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); sel = sys.argv[5:]
    done = set()
    if os.path.exists(outp):
        for l in open(outp): x = json.loads(l); done.add((x["file"], x["line"], x["new"]))
    todo = []
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    for f, props in MAP.items():
        if sel and not any(s in f for s in sel): continue
        try: lines = open("/repo/" + f).readlines()
        except OSError: print("no", f); continue
        ms = [x for x in muts(lines)]; rnd.shuffle(ms); 
        k = 0
        for i, new, d, *w in ms:
            if (f, i + 1, new) in done: continue
            todo.append((f, i, new, d, props.split(), lines, w[0] if w else 1)); k += 1
            if k >= N: break
    rnd.shuffle(todo); print(len(todo), "mutants", flush=True); lock = threading.Lock(); fo = open(outp, "a")
    def worker(w):
        base = os.environ.get("MUTDIR", "/tmp/mut") + f"/w{w}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base + "/repo")
        subprocess.run(["cp", "-r", "/repo/include", "/repo/src", base + "/repo/"])
        env = dict(os.environ, VS_REPO=base + "/repo", VS_BUILD=base + "/build", VS_OUT=base + "/out", VS_JOBS=str(J), VS_FAST="1"); pristine = {}
        def build(p):
            r = subprocess.run(["nice", "-n", "19", V + "/bin/check", p, "--build-only"], env=env, capture_output=True, text=True)
            if r.returncode: return None
            d = r.stdout.split()[-1]; return {f: hashlib.sha256(open(d + "/" + f, "rb").read()).hexdigest() for f in os.listdir(d) if f.endswith(".o")}
        while True:
            with lock:
                if not todo: break
                f, i, new, d, props, lines, w_ = todo.pop()
            for p in props:
                if p not in pristine: shutil.rmtree(base + "/build", ignore_errors=True); pristine[p] = build(p)
            dst = base + "/repo/" + f; nl = list(lines); old = "".join(nl[i:i + w_]); nl[i:i + w_] = [new]; open(dst, "w").writelines(nl)
            t0 = time.time(); res = "survived"; by = []; active = False; msg = ""
            shutil.rmtree(base + "/build", ignore_errors=True)
            for p in props:
                b = build(p)
                if b is None: res = "nobuild"; break
                if all(b.get(k) == v for k, v in pristine[p].items()): continue
                active = True
                try: r = subprocess.run(["nice", "-n", "19", V + "/bin/check", p], env=env, capture_output=True, text=True, timeout=1500)
                except subprocess.TimeoutExpired: by.append(p + ":timeout"); continue
                if r.returncode == 1: res = "killed"; by.append(p); mm = re.search(r"VIOLATION-IN (.*)", r.stdout); msg = mm.group(1)[:160] if mm else ""; break
                if r.returncode != 0: by.append(p + ":rc%d %s" % (r.returncode, r.stdout[-200:]))
            if res == "survived" and not active: res = "inactive"
            open(dst, "w").writelines(lines)
            with lock:
                fo.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new, op=d, res=res, by=by, msg=msg, s=round(time.time() - t0))) + "\n"); fo.flush()
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
