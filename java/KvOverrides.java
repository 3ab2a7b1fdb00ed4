import tlc2.overrides.ITLCOverrides;
public final class KvOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { PrimOverrides.class, EdOverrides.class }; }
}
