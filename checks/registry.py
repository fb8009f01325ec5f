"""Property id -> (module, function) deciding it."""
REGISTRY = {
    "C01": ("fixedstring", "run"),
    "C02": ("ownedtext", "run"),
    "C03": ("fixedarray", "run"),
    "C04": ("intcompare", "run"),
    "C05": ("shareddata", "run"),
    "C06": ("libraries", "run"),
    "C07": ("anys", "run"),
    "C08": ("uuids", "run"),
    "C09": ("times", "run"),
    "C10": ("simulation", "run"),
    "C12": ("scheduling", "run"),
    "C13": ("scheduling", "run"),
    "C14": ("scheduling", "run"),
    "C15": ("eventmanager", "run"),
    "C16": ("linkregistry", "run"),
    "C17": ("paths", "run"),
    "C19": ("containment", "run"),
    "C24": ("names", "run"),
    "C20": ("signals", "run"),
    "C21": ("fields", "run"),
    "C22": ("checkpoint", "run"),
    "C18": ("loggers", "run"),
    "C23": ("publications", "run"),
    "C25": ("factories", "run"),
    "C26": ("collections_", "run"),
    "C27": ("persist", "run"),
    "C28": ("requests", "run"),
}
