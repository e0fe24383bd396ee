package lfa;

import tlc2.overrides.ITLCOverrides;

/** Registers the Java evaluation of the operators declared in Num.tla. */
public class NumOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { Num.class };
    }
}
