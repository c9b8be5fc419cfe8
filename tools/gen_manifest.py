"""Writes MANIFEST.json from the checks which exist under props/."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TF = "Trusts TensorFlow's CPU kernels as the reference and onnxruntime 1.17 (graph optimisations off) as the executor of ONNX."
T = {
 "C01": ("property-based testing: generated operator programs, differential oracle TensorFlow vs onnxruntime", TF),
 "C02": ("property-based testing: generated operator programs, differential oracle TensorFlow vs onnxruntime", TF),
 "C03": ("property-based testing: generated layer programs, differential oracle TensorFlow vs onnxruntime", TF),
 "C04": ("property-based testing: generated image/detection programs, differential oracle TensorFlow vs onnxruntime", TF),
 "C05": ("property-based testing: generated matrix/einsum/FFT programs, differential oracle TensorFlow vs onnxruntime", TF),
 "C06": ("property-based testing: generated ragged/sparse/segment programs, differential oracle TensorFlow vs onnxruntime", TF),
 "C07": ("property-based testing: generated control-flow programs with several steering inputs per model, differential oracle", TF),
 "C08": ("property-based testing: generated recurrent layers and lengths, differential oracle Keras vs onnxruntime", TF),
 "C09": ("property-based testing: generated Keras model DAGs, differential oracle Keras vs onnxruntime plus interface oracle", TF),
 "C10": ("property-based testing: generated TFLite models, differential oracle TFLite interpreter vs onnxruntime", "Trusts the TFLite interpreter and onnxruntime."),
 "C11": ("property-based testing: generated ONNX graphs through every optimizer pass, metamorphic oracle before/after", "Trusts onnxruntime (optimisations off) and onnx.checker."),
 "C12": ("stateful property-based testing: generated edit histories on Graph against a reference model, round trips", "The reference model is a re-reading of the graph's own nodes plus an independent edge-list model; trusts onnxruntime."),
 "C13": ("property-based testing: generated programs x opsets x targets, validity oracle onnx.checker and cross-opset agreement", "Trusts onnx.checker, onnx schemas and onnxruntime."),
 "C14": ("property-based testing: generated signatures and interface requests, metamorphic oracle", TF),
 "C15": ("property-based testing: generated computations over all loading paths, differential oracle between the paths", TF),
 "C16": ("property-based testing: generated programs with erased dimensions, differential oracle at several concrete sizes", TF),
 "C17": ("property-based testing: generated programs with operands turned into constants, metamorphic and differential oracle", TF),
 "C18": ("stateful property-based testing: generated histories of conversions, determinism and purity oracle", "Models are compared up to generated names; trusts onnxruntime."),
 "C19": ("property-based testing: generated programs mixing unsupported and custom operators, refusal and pass-through oracle", TF),
 "C20": ("property-based testing: generated programs with every intermediate tensor exposed, invariant oracle declared vs actual", "Trusts onnxruntime."),
 "C21": ("property-based testing: generated pattern instances, near misses and compositions, differential oracle", TF),
 "C22": ("property-based testing: generated string/table programs, differential oracle TensorFlow vs onnxruntime(-extensions)", TF + " String kernels come from onnxruntime-extensions."),
 "C23": ("property-based testing and mutation fuzzing: generated values against a reference FlexBuffer encoder, round-trip oracle", "Trusts the flatbuffers package's FlexBuffer encoder and reader."),
 "C24": ("property-based testing: generated constant sets through packaging and back, round-trip and bitwise oracle", "Trusts onnx's external data loader."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "props", p.lower() + ".py")):
        tech, note = T[p]
        checks.append({"property": p, "quick_cmd": "python3 lib/check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 lib/check.py %s --tier thorough" % p,
                       "technique": tech, "level": "exploration",
                       "level_note": "Sampled, not exhaustive: it says the property held on every generated case of the run. " + note})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Checks run the converter straight from /repo's working tree with /opt/venv; nothing is built. No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
