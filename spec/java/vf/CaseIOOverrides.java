package vf;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.Value;
import tlc2.value.impl.StringValue;

public class CaseIOOverrides {
	private static Value cases;

	@TLAPlusOperator(identifier = "CachedCases", module = "CaseIO", warn = false)
	public static synchronized Value cachedCases() throws Exception {
		if (cases == null) {
			Value v = (Value) tlc2.overrides.Json.deserialize(new StringValue(System.getenv("CASES")));
			v.deepNormalize();
			v.fingerPrint(0L);
			cases = v;
		}
		return cases;
	}

	private static final java.util.HashMap<String, Value> tables = new java.util.HashMap<>();

	@TLAPlusOperator(identifier = "CachedTable", module = "CaseIO", warn = false)
	public static synchronized Value cachedTable(Value name) throws Exception {
		String n = ((StringValue) name).val.toString();
		Value r = tables.get(n);
		if (r == null) {
			r = (Value) tlc2.overrides.Json.deserialize(new StringValue(System.getenv("SPECDIR") + "/" + n));
			r.deepNormalize();
			r.fingerPrint(0L);
			tables.put(n, r);
		}
		return r;
	}
}
