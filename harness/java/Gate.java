package vpgate;

import java.util.concurrent.Semaphore;
import org.python.core.*;

/** Counts the lines a thread executes in the watched files and takes its turn away when its quota is used up.
    (A trace function written in Python cannot wait: Jython runs these under a global lock.) */
public class Gate extends TraceFunction {
    public static volatile boolean stop, hang;
    public static volatile long total, limit;
    public final Semaphore turn = new Semaphore(0);
    public static volatile Semaphore main;
    public long quota, lines;
    private final String[] watch;
    private final PyObject stopType;

    public Gate(String[] watch, PyObject stopType) {
        this.watch = watch;
        this.stopType = stopType;
    }

    public void install() { Py.getThreadState().tracefunc = this; }
    public static void remove() { Py.getThreadState().tracefunc = null; }

    private void end(String why) { throw new PyException(stopType, why); }

    public void give() throws InterruptedException {
        main.release();
        turn.acquire();
        if (stop) end("run given up");
    }

    public void point() {
        if (stop) end("run given up");
        lines++;
        total++;
        if (total > limit) { stop = true; hang = true; end("too many lines"); }
        if (--quota <= 0) {
            try { give(); } catch (InterruptedException e) { end("interrupted"); }
        }
    }

    public TraceFunction traceCall(PyFrame frame) {
        String name = ((PyBaseCode) frame.f_code).co_filename;
        for (String w : watch) if (name.contains(w)) return this;
        return null;
    }
    public TraceFunction traceLine(PyFrame frame, int line) { point(); return this; }
    public TraceFunction traceReturn(PyFrame frame, PyObject ret) { return this; }
    public TraceFunction traceException(PyFrame frame, PyException e) { return this; }
}
