// Line-level seam into the code under test: every source line of the library
// executed by a simulated thread passes through here.  Used to (1) bound the
// number of steps of a run, (2) abandon a call at an exact line by throwing an
// exception of the simulator's choice, (3) decide which simulated thread runs
// next.  Real threads are used, but exactly one holds the baton at any time and
// who gets it is decided by the plan, never by the JVM.
import java.util.*;
import java.util.concurrent.Semaphore;
import org.python.core.*;

public class SimTrace extends TraceFunction {
    public static class Budget extends Error {
        public Budget(String m) { super(m); }
    }

    private final String marker;
    // ---- step budget and interruption (per call into the library) ----
    public long lines;          // lines executed since arm()
    public long limit = Long.MAX_VALUE;
    public long cancelAt = -1;  // throw at this line, once
    public PyObject cancelExc;
    public boolean cancelled;
    public String cancelWhere = "";
    // Points at which things can happen are counted in "points": a line counts the
    // first VISITS times only, so that long loops do not crowd out everything else.
    public static final int VISITS = 3;
    public long points;
    // Lines at which no interruption is delivered: "try:" itself (CPython delivers none
    // between the statement before it and the protected block) and the statements that
    // clean up.  An interruption that falls on one is delivered at the next other line.
    private static final HashMap<String, HashSet<Integer>> shields = new HashMap<String, HashSet<Integer>>();

    public static void shield(String file, int line) {
        HashSet<Integer> l = shields.get(file);
        if (l == null) { l = new HashSet<Integer>(); shields.put(file, l); }
        l.add(line);
    }

    static boolean shielded(PyFrame f, int line) {
        HashSet<Integer> l = shields.get(((PyBaseCode) f.f_code).co_filename);
        return l != null && l.contains(line);
    }

    private final HashMap<Long, int[]> visits = new HashMap<Long, int[]>();

    static boolean novel(HashMap<Long, int[]> visits, PyFrame f, int line) {
        Long key = ((PyBaseCode) f.f_code).co_filename.hashCode() * 100003L + line;
        int[] c = visits.get(key);
        if (c == null) { visits.put(key, new int[] {1}); return true; }
        return ++c[0] <= VISITS;
    }
    // ---- scheduler ----
    private Sched sched;

    public SimTrace(String marker) { this.marker = marker; }

    public void arm(long limit) {
        this.lines = 0; this.points = 0; visits.clear(); this.limit = limit; this.cancelAt = -1;
        this.cancelExc = null; this.cancelled = false; this.cancelWhere = "";
    }

    public void cancel(long at, PyObject exc) { this.cancelAt = at; this.cancelExc = exc; }

    public void setSched(Sched s) { this.sched = s; }

    public void install() { Py.getThreadState().tracefunc = this; }

    public void uninstall() { Py.getThreadState().tracefunc = null; }

    private boolean ours(PyFrame f) {
        return f.f_code != null && ((PyBaseCode) f.f_code).co_filename.contains(marker);
    }

    public TraceFunction traceCall(PyFrame f) { return ours(f) ? this : null; }

    public TraceFunction traceReturn(PyFrame f, PyObject ret) { return this; }

    public TraceFunction traceException(PyFrame f, PyException exc) { return this; }

    public TraceFunction traceLine(PyFrame f, int line) {
        Sched s = sched;
        if (s != null) {
            s.line(f, line);
            return this;
        }
        lines++;
        if (lines > limit)
            throw new Budget("step budget exhausted at " + where(f, line));
        if (cancelExc != null && !cancelled && (novel(visits, f, line) ? ++points : points) >= cancelAt && cancelAt >= 0 && !shielded(f, line)) {
            cancelled = true;
            cancelWhere = where(f, line);
            throw new PyException(cancelExc.getType(), cancelExc);
        }
        return this;
    }

    static String where(PyFrame f, int line) {
        String n = ((PyBaseCode) f.f_code).co_filename;
        int i = n.lastIndexOf('/');
        return n.substring(i + 1) + ":" + ((PyBaseCode) f.f_code).co_name + ":" + line;
    }

    /** Who runs next, decided by a list of preemptions (thread, its n-th line, next thread). */
    public static class Sched {
        final int n;
        final Semaphore[] sem;
        final boolean[] done, blocked;
        final long[] count;     // points of the operation under way
        final int[] op;         // number of the operation under way
        final long[] total;     // lines
        final HashMap<Long, int[]>[] visits;
        final long[] limit;
        final Map<Long, Integer> preempt = new HashMap<Long, Integer>();
        final Map<Long, PyObject> cancels = new HashMap<Long, PyObject>();
        final IdentityHashMap<Thread, Integer> ids = new IdentityHashMap<Thread, Integer>();
        public final boolean[] cancelled;
        private final PyObject[] pending;
        public int current = -1;
        public long switches = 0, fired = 0;
        public boolean deadlock = false;
        public int every = 0;   // > 0: the next thread's turn after so many points
        private long since = 0;
        public final StringBuilder work = new StringBuilder();   // points of each operation
        public final StringBuilder order = new StringBuilder();
        public final Semaphore main = new Semaphore(0);
        public String overrun = null;

        @SuppressWarnings("unchecked")
        public Sched(int n, long lim) {
            this.n = n;
            sem = new Semaphore[n]; done = new boolean[n]; blocked = new boolean[n];
            count = new long[n]; op = new int[n]; Arrays.fill(op, -1); total = new long[n]; visits = new HashMap[n]; limit = new long[n]; cancelled = new boolean[n]; pending = new PyObject[n];
            for (int i = 0; i < n; i++) { sem[i] = new Semaphore(0); limit[i] = lim; visits[i] = new HashMap<Long, int[]>(); }
        }

        private static long key(int t, int o, long k) { return (k * 64 + Math.max(o, 0)) * 64 + t; }

        public void addPreempt(int t, int o, long k, int to) { preempt.put(key(t, o, k), to); }

        public void addCancel(int t, int o, long k, PyObject exc) { cancels.put(key(t, o, k), exc); }

        /** the calling thread begins another operation: its lines count afresh */
        public void freshen() { Integer m = me(); if (m != null) { if (op[m] >= 0) work.append(count[m]).append(' '); visits[m].clear(); count[m] = 0; op[m]++; pending[m] = null; } }

        public long points(int t) { return count[t]; }

        public synchronized void register(int t) { ids.put(Thread.currentThread(), t); }

        public synchronized Integer me() { return ids.get(Thread.currentThread()); }

        /** first action of a simulated thread */
        public void begin(int t) { register(t); sem[t].acquireUninterruptibly(); }

        public void start(int first) { current = first; sem[first].release(); main.acquireUninterruptibly(); }

        private int pick(int from) {
            for (int i = 0; i < n; i++) { int t = (from + i) % n; if (!done[t] && !blocked[t]) return t; }
            return -1;
        }

        private void hand(int me, int to, boolean wait) {
            if (to != me) {
                switches++;
                if (order.length() < 4000) order.append(me).append('@').append(Math.max(op[me], 0)).append('.').append(count[me]).append('>').append(to).append(' ');
                current = to;
                sem[to].release();
                if (wait) sem[me].acquireUninterruptibly();
            }
        }

        private void interrupt(int me) {
            PyObject exc = pending[me];
            pending[me] = null;
            cancelled[me] = true;
            throw new PyException(exc.getType(), exc);
        }

        void line(PyFrame f, int line) {
            Integer id = me();
            if (id == null) return;
            int me = id;
            if (++total[me] > limit[me]) { overrun = where(f, line); throw new Budget("step budget exhausted at " + where(f, line)); }
            if (!novel(visits[me], f, line)) {
                if (pending[me] == null) return;
                if (!shielded(f, line)) interrupt(me);
                return;
            }
            long k = ++count[me];
            PyObject exc = cancels.get(key(me, op[me], k));
            if (exc != null) pending[me] = exc;
            if (pending[me] != null && !shielded(f, line)) interrupt(me);
            Integer to = preempt.get(key(me, op[me], k));
            if (to == null && every > 0 && ++since >= every) {
                since = 0;
                int t = pick(me + 1);
                if (t >= 0 && t != me) { fired++; hand(me, t, true); }
            }
            else if (to != null) {
                int t = to % n;
                if (t != me && !done[t] && !blocked[t]) { fired++; hand(me, t, true); }
            }
        }

        /** called by a simulated lock that is held by another simulated thread; false: nobody can run */
        public boolean block() {
            int me = me();
            blocked[me] = true;
            int to = pick(me + 1);
            if (to < 0) { deadlock = true; blocked[me] = false; return false; }
            hand(me, to, true);
            return !deadlock;
        }

        public void unblockAll() { for (int i = 0; i < n; i++) blocked[i] = false; }

        /** last action of a simulated thread */
        public void end() {
            int me = me();
            work.append(count[me]).append(' ');
            done[me] = true;
            int to = pick(me + 1);
            if (to < 0) {
                boolean all = true;
                for (int i = 0; i < n; i++) if (!done[i]) all = false;
                if (!all) {            // the rest wait for a lock nobody will release
                    deadlock = true;
                    for (int i = 0; i < n; i++) if (!done[i]) { blocked[i] = false; }
                    to = pick(0);
                    hand(me, to, false);
                    return;
                }
                main.release();
                return;
            }
            hand(me, to, false);
        }
    }
}
