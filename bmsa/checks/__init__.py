REGISTRY = {
    "C16": ("diagnostics", "check"),
    "C17": ("cli", "check"),
    "C14": ("html", "check"),
    "C01": ("operators", "check_typing"),
    "C02": ("operators", "check_total"),
    "C03": ("operators", "check_semantics"),
    "C04": ("operators", "check_undefined"),
    "C06": ("codegen", "check"),
    "C05": ("vm", "check"),
    "C07": ("analysis", "check"),
    "C08": ("lookup", "check"),
    "C10": ("literals", "check"),
    "C11": ("parsing", "check"),
    "C12": ("treebuild", "check"),
    "C15": ("tokens", "check"),
    "C19": ("document", "check"),
    "C09": ("annotations", "check"),
    "C13": ("codetext", "check"),
}
