package mc;

import java.nio.file.*;
import java.util.*;

public final class Main {
  public static void main(String[] a) throws Exception {
    String prop = a[0], only = null;
    String tier = System.getenv().getOrDefault("VERIF_TIER", "quick");
    for (int i = 1; i < a.length; i++) {
      if (a[i].equals("--replay")) {
        for (String l : Files.readAllLines(Paths.get(a[++i]))) {
          if (l.startsWith("key=")) only = l.substring(4);
          if (l.startsWith("tier=")) tier = l.substring(5);
        }
      } else if (a[i].equals("--key")) only = a[++i];
      else if (a[i].equals("--tier")) tier = a[++i];
    }
    Path verif = Paths.get(System.getProperty("mc.verif"));
    Run run = new Run(prop, tier, only, verif);
    Spec spec = Spec.load(verif.resolve("spec/layout.txt"));
    Harvest hv = Harvest.load(Paths.get(System.getProperty("mc.classes")));
    run.watchdog();
    try { Engines.run(run, spec, hv); }
    catch (Sut.Broken t) { run.violation("setup", Sut.desc(t)); }
    catch (Throwable t) { t.printStackTrace(); if (run.nviol.get() == 0) Runtime.getRuntime().halt(2); }
    Runtime.getRuntime().halt(run.finish());
  }
}
