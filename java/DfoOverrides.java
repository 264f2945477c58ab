import tlc2.overrides.ITLCOverrides;
public class DfoOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { Dyadic.class }; }
}
