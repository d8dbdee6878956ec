// TLC module overrides for spec/Flt.tla: real arithmetic on IEEE doubles.
// A number is an integer, a decimal string (as written by the drivers with %.17g, or "nan"/"inf"/"-inf"),
// or a FltValue produced by another operator of the module.  No operator throws on a number; anything
// that is not a number counts as nan, and every comparison with nan is FALSE.
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;

public class FltOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] {FltOverrides.class}; }

    public static final class FltValue extends Value {
        final double d;
        FltValue(double d) { this.d = d; }
        public byte getKind() { return STRINGVALUE; }
        public int compareTo(Object o) { return Double.compare(d, num((Value) o)); }
        public boolean equals(Object o) { return o instanceof Value && Double.compare(d, num((Value) o)) == 0; }
        public boolean member(Value v) { return false; }
        public boolean isFinite() { return true; }
        public Value takeExcept(ValueExcept ex) { return this; }
        public Value takeExcept(ValueExcept[] ex) { return this; }
        public int size() { return 1; }
        public boolean mutates() { return false; }
        public boolean isNormalized() { return true; }
        public Value normalize() { return this; }
        public boolean isDefined() { return true; }
        public IValue deepCopy() { return this; }
        public void write(IValueOutputStream vos) throws java.io.IOException { new StringValue(Double.toString(d)).write(vos); }
        public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, STRINGVALUE), Double.doubleToLongBits(d)); }
        public IValue permute(IMVPerm perm) { return this; }
        public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append('"').append(d).append('"'); }
    }

    static double num(Value v) {
        if (v instanceof FltValue) return ((FltValue) v).d;
        if (v instanceof IntValue) return ((IntValue) v).val;
        if (v instanceof StringValue) {
            final String s = ((StringValue) v).getVal().toString();
            try { return Double.parseDouble(s); } catch (NumberFormatException e) {
                if (s.equals("inf")) return Double.POSITIVE_INFINITY;
                if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
                return Double.NaN;
            }
        }
        return Double.NaN;
    }
    static Value[] elems(Value v) {
        final Value t = v.toTuple();
        return t == null ? new Value[0] : ((TupleValue) t).elems;
    }
    static double[] vec(Value v) {
        final Value[] e = elems(v);
        final double[] r = new double[e.length];
        for (int i = 0; i < r.length; i++) r[i] = num(e[i]);
        return r;
    }
    static Value mk(double d) { return new FltValue(d); }
    static Value mk(double[] d) {
        final Value[] e = new Value[d.length];
        for (int i = 0; i < d.length; i++) e[i] = new FltValue(d[i]);
        return new TupleValue(e);
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "FAdd", module = "Flt", warn = false)
    public static Value fadd(Value a, Value b) { return mk(num(a) + num(b)); }
    @TLAPlusOperator(identifier = "FSub", module = "Flt", warn = false)
    public static Value fsub(Value a, Value b) { return mk(num(a) - num(b)); }
    @TLAPlusOperator(identifier = "FMul", module = "Flt", warn = false)
    public static Value fmul(Value a, Value b) { return mk(num(a) * num(b)); }
    @TLAPlusOperator(identifier = "FDiv", module = "Flt", warn = false)
    public static Value fdiv(Value a, Value b) { return mk(num(a) / num(b)); }
    @TLAPlusOperator(identifier = "FNeg", module = "Flt", warn = false)
    public static Value fneg(Value a) { return mk(-num(a)); }
    @TLAPlusOperator(identifier = "FAbs", module = "Flt", warn = false)
    public static Value fabs(Value a) { return mk(Math.abs(num(a))); }
    @TLAPlusOperator(identifier = "FSqrt", module = "Flt", warn = false)
    public static Value fsqrt(Value a) { return mk(Math.sqrt(num(a))); }
    @TLAPlusOperator(identifier = "FSin", module = "Flt", warn = false)
    public static Value fsin(Value a) { return mk(Math.sin(num(a))); }
    @TLAPlusOperator(identifier = "FCos", module = "Flt", warn = false)
    public static Value fcos(Value a) { return mk(Math.cos(num(a))); }
    @TLAPlusOperator(identifier = "FLn", module = "Flt", warn = false)
    public static Value fln(Value a) { return mk(Math.log(num(a))); }
    @TLAPlusOperator(identifier = "FF32", module = "Flt", warn = false)
    public static Value ff32(Value a) { return mk((double) (float) num(a)); }
    @TLAPlusOperator(identifier = "FMin", module = "Flt", warn = false)
    public static Value fmin(Value a, Value b) { return mk(Math.min(num(a), num(b))); }
    @TLAPlusOperator(identifier = "FMax", module = "Flt", warn = false)
    public static Value fmax(Value a, Value b) { return mk(Math.max(num(a), num(b))); }
    @TLAPlusOperator(identifier = "FLe", module = "Flt", warn = false)
    public static Value fle(Value a, Value b) { return bool(num(a) <= num(b)); }
    @TLAPlusOperator(identifier = "FLt", module = "Flt", warn = false)
    public static Value flt(Value a, Value b) { return bool(num(a) < num(b)); }
    @TLAPlusOperator(identifier = "FEq", module = "Flt", warn = false)
    public static Value feq(Value a, Value b) { return bool(num(a) == num(b)); }
    @TLAPlusOperator(identifier = "FFinite", module = "Flt", warn = false)
    public static Value ffin(Value a) { return bool(Double.isFinite(num(a))); }
    @TLAPlusOperator(identifier = "FNear", module = "Flt", warn = false)
    public static Value fnear(Value a, Value b, Value tol) { return bool(Math.abs(num(a) - num(b)) <= num(tol)); }
    @TLAPlusOperator(identifier = "FFloor", module = "Flt", warn = false)
    public static Value ffloor(Value a) { return clampInt(Math.floor(num(a))); }
    @TLAPlusOperator(identifier = "FRound", module = "Flt", warn = false)
    public static Value fround(Value a) { return clampInt(Math.rint(num(a))); }
    static Value clampInt(double x) {
        if (Double.isNaN(x)) return IntValue.gen(Integer.MIN_VALUE);
        return IntValue.gen((int) Math.max(Integer.MIN_VALUE, Math.min(Integer.MAX_VALUE, x)));
    }
    @TLAPlusOperator(identifier = "FSumSeq", module = "Flt", warn = false)
    public static Value fsum(Value s) { double r = 0; for (double x : vec(s)) r += x; return mk(r); }
    @TLAPlusOperator(identifier = "FMaxAbs", module = "Flt", warn = false)
    public static Value fmaxabs(Value s) {
        double r = 0;
        for (double x : vec(s)) { if (Double.isNaN(x)) return mk(Double.NaN); r = Math.max(r, Math.abs(x)); }
        return mk(r);
    }
    @TLAPlusOperator(identifier = "VAdd", module = "Flt", warn = false)
    public static Value vadd(Value a, Value b) {
        final double[] x = vec(a), y = vec(b), r = new double[x.length];
        for (int i = 0; i < r.length; i++) r[i] = x[i] + (i < y.length ? y[i] : Double.NaN);
        return mk(r);
    }
    @TLAPlusOperator(identifier = "VSub", module = "Flt", warn = false)
    public static Value vsub(Value a, Value b) {
        final double[] x = vec(a), y = vec(b), r = new double[x.length];
        for (int i = 0; i < r.length; i++) r[i] = x[i] - (i < y.length ? y[i] : Double.NaN);
        return mk(r);
    }
    @TLAPlusOperator(identifier = "VScale", module = "Flt", warn = false)
    public static Value vscale(Value s, Value a) {
        final double[] x = vec(a), r = new double[x.length];
        final double k = num(s);
        for (int i = 0; i < r.length; i++) r[i] = k * x[i];
        return mk(r);
    }
    @TLAPlusOperator(identifier = "VDot", module = "Flt", warn = false)
    public static Value vdot(Value a, Value b) {
        final double[] x = vec(a), y = vec(b);
        if (x.length != y.length) return mk(Double.NaN);
        double r = 0;
        for (int i = 0; i < x.length; i++) r += x[i] * y[i];
        return mk(r);
    }
    @TLAPlusOperator(identifier = "VNorm", module = "Flt", warn = false)
    public static Value vnorm(Value a) {
        double r = 0;
        for (double x : vec(a)) r += x * x;
        return mk(Math.sqrt(r));
    }
    @TLAPlusOperator(identifier = "VCross", module = "Flt", warn = false)
    public static Value vcross(Value a, Value b) {
        final double[] x = vec(a), y = vec(b);
        if (x.length != 3 || y.length != 3) return mk(new double[] {Double.NaN, Double.NaN, Double.NaN});
        return mk(new double[] {x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]});
    }
    // same length and every component within tol
    @TLAPlusOperator(identifier = "VNear", module = "Flt", warn = false)
    public static Value vnear(Value a, Value b, Value tol) {
        final double[] x = vec(a), y = vec(b);
        final double t = num(tol);
        if (x.length != y.length) return bool(false);
        for (int i = 0; i < x.length; i++) if (!(Math.abs(x[i] - y[i]) <= t)) return bool(false);
        return bool(true);
    }
    @TLAPlusOperator(identifier = "VFinite", module = "Flt", warn = false)
    public static Value vfinite(Value a) {
        for (double x : vec(a)) if (!Double.isFinite(x)) return bool(false);
        return bool(true);
    }

    // ---- Tables.tla: lookup tables over sequences (same meaning as the TLA+ definitions, linear time)
    static Value field(Value v, String f) {
        if (!(v instanceof RecordValue)) return null;
        final RecordValue r = (RecordValue) v;
        for (int i = 0; i < r.names.length; i++) if (r.names[i].toString().equals(f)) return r.values[i];
        return null;
    }
    @TLAPlusOperator(identifier = "IndexById", module = "Tables", warn = false)
    public static Value indexById(Value s) {
        final Value[] e = elems(s);
        final java.util.TreeMap<Integer, Value> m = new java.util.TreeMap<>();
        for (Value v : e) {
            final Value k = field(v, "id");
            if (k instanceof IntValue) m.putIfAbsent(((IntValue) k).val, v);
        }
        final Value[] d = new Value[m.size()], r = new Value[m.size()];
        int i = 0;
        for (java.util.Map.Entry<Integer, Value> x : m.entrySet()) { d[i] = IntValue.gen(x.getKey()); r[i++] = x.getValue(); }
        return new FcnRcdValue(d, r, true);
    }
    @TLAPlusOperator(identifier = "Concat", module = "Tables", warn = false)
    public static Value concat(Value s) {
        final java.util.ArrayList<Value> l = new java.util.ArrayList<>();
        for (Value v : elems(s)) for (Value x : elems(v)) l.add(x);
        return new TupleValue(l.toArray(new Value[0]));
    }
}
