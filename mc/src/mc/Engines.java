package mc;

final class Engines {
  static void run(Run run, Spec spec, Harvest hv) throws Exception {
    switch (run.prop) {
      case "C01": new EValues(run, spec, hv).c01(); break;
      case "C02": new EValues(run, spec, hv).c02(); break;
      case "C03": new EValues(run, spec, hv).c03(); break;
      case "C19": new EValues(run, spec, hv).c19(); break;
      case "C04": new EFrames(run, spec, hv).c04(); break;
      case "C05": new EFrames(run, spec, hv).c05(); break;
      case "C14": new EFrames(run, spec, hv).c14(); break;
      case "C09": new EObjects(run, spec, hv).c09(); break;
      case "C12": new EObjects(run, spec, hv).c12(); break;
      case "C06": new ESums(run, spec, hv).c06(); break;
      case "C07": new ERegs(run, spec, hv).c07(); break;
      case "C08": new ERegs(run, spec, hv).c08(); break;
      case "C10": new EBuffers(run, spec, hv).c10(); break;
      case "C11": new EBuffers(run, spec, hv).c11(); break;
      case "C13": new EText(run, spec, hv).c13(); break;
      case "C17": new EBits(run, spec, hv).c17(); break;
      case "C18": new EBits(run, spec, hv).c18(); break;
      case "C20": new EFail(run, spec, hv).c20(); break;
      case "C21": new EEnv(run, spec, hv).c21(); break;
      case "C22": new ERetain(run, spec, hv).c22(); break;
      case "C15": new EConc(run, spec, hv).c15(); break;
      case "C16": new EConc(run, spec, hv).c16(); break;
      default: throw new IllegalArgumentException("no engine for " + run.prop);
    }
  }
}
