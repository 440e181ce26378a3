"""What each property's check consists of."""

S = [("spark", False)]

G = [("graph", False)]

M = [("misc", False)]

V = [("view", False)]

CLI = [("cli", False)]

PROPS = {
    "C10": {"pkgs": CLI, "bins": ["n2j"], "parts": ["C10.inproc", "C10.n2j", "C10.large"]},
    "C28": {"pkgs": CLI, "bins": ["n2j", "hangover"], "parts": ["C28.contain"]},
    "C12": {"pkgs": CLI, "bins": ["n2j", "hangover"], "parts": ["C12.status"]},
    "C11": {"pkgs": CLI, "bins": ["n2j"], "parts": ["C11.csv"]},
    "C08": {"pkgs": V, "bins": ["hangover"], "parts": ["C08.roundtrip", "C08.large", "C08.command"]},
    "C15": {"pkgs": V, "parts": ["C15.text"]},
    "C16": {"pkgs": V, "parts": ["C16.download"]},
    "C17": {"pkgs": [("view", True)], "bins": ["hangover"], "parts": ["C17.requests", "C17.opening", "C17.command"]},
    "C19": {"pkgs": V, "parts": ["C19.links"]},
    "C18": {"pkgs": V, "bins": ["hangover"], "parts": ["C18.policy", "C18.command"]},
    "C13": {"pkgs": V, "parts": ["C13.reach"]},
    "C14": {"pkgs": V, "parts": ["C14.paging"]},
    "C09": {"pkgs": V, "bins": ["hangover"], "parts": ["C09.file", "C09.stream", "C09.version", "C09.command"]},
    "C22": {"pkgs": M, "parts": ["C22.find"]},
    "C23": {"pkgs": M, "parts": ["C23.roundtrip", "C23.damage"]},
    "C24": {"pkgs": [("misc", True)], "shards": 16, "parts": ["C24.stats", "C24.progress"]},
    "C06": {"pkgs": G, "parts": ["C06.paths"]},
    "C07": {"pkgs": G, "parts": ["C07.read"]},
    "C25": {"pkgs": G, "parts": ["C25.ids", "C25.maps", "C25.three", "C25.labels"]},
    "C01": {"pkgs": S, "bins": ["n2j"], "parts": ["C01.inproc", "C01.n2j", "C01.big"]},
    "C02": {"pkgs": S, "bins": ["n2j"], "parts": ["C02.inproc", "C02.n2j", "C02.big"]},
    "C03": {"pkgs": S, "parts": ["C03.names", "C03.labels"]},
    "C04": {"pkgs": S, "parts": ["C04.swap", "C04.none"]},
    "C05": {"pkgs": S, "parts": ["C05.config"]},
    "C27": {"pkgs": S, "parts": ["C27.order"]},
    "C29": {"pkgs": S, "bins": ["n2j"], "parts": ["C29.split", "C29.extract", "C29.n2j"]},
    "C30": {"pkgs": S, "parts": ["C30.evidence"]},
    "C20": {"pkgs": S, "parts": ["C20.faults"]},
    "C26": {"pkgs": S, "parts": ["C26.leaks"]},
    "C21": {"pkgs": [("spark", True)], "parts": ["C21.timing", "C21.readers"]},
}
