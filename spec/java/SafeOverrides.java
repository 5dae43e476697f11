import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.*;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;
public class SafeOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[] { SafeOverrides.class }; }
  @Evaluation(definition = "Safe", module = "Safe", warn = false, silent = true)
  public static Value safe(final Tool tool, final ExprOrOpArgNode[] args, final Context c,
      final TLCState s0, final TLCState s1, final int control, final CostModel cm) {
    try { return (Value) tool.eval(args[0], c, s0, s1, control, cm); }
    catch (StackOverflowError | RuntimeException e) {
      if (System.getenv("VH_DEBUG") != null) System.out.println("SAFE: " + e);
      return (Value) tool.eval(args[1], c, s0, s1, control, cm); }
  }
}
