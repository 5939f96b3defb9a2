"""What MANIFEST.json says about each check; exec'd by mkmanifest.py."""
H = "TLA+ state machine spec/Qlc.tla; histories of edits and runs of the real program are recorded and checked against it by TLC (trace validation)"
C = "; TLC enumerates %s and every case is replayed on the real program"
Q = "Exhaustive within the model's bounds; beyond them seeded random histories (VERIF_SEED), each judged by TLC evaluating the specification's own definition on the recording. "
TECH.update({
 "C01": "TLA+ model of the worker protocol (spec/Pool.tla) checked exhaustively with TLC, liveness included, and its safety proved with TLAPS for any number of workers and any finite tree (thorough runs redo the proof); every edge of its state graphs is forced onto the real pool by a controlled scheduler, wrong protocols' losing schedules are tried on it, and the recorded schedules are checked as behaviours of Pool",
 "C02": H + C % "directory trees (spec/MCTree.tla)",
 "C03": H + C % "combinations of faults (spec/MCFaults.tla)",
 "C04": H + C % "selection sets (spec/MCSelect.tla) and like and unlike fields of a union's members (spec/MCTwins.tla)",
 "C05": H + C % "wrapper sequences in three positions (spec/MCWrap.tla)",
 "C06": H + C % "selection sets (spec/MCSelect.tla) and like and unlike fields of a union's members (spec/MCTwins.tla)",
 "C07": H + C % "wrapper sequences and types of variables (spec/MCWrap.tla)",
 "C08": H + C % "input-type graphs (spec/MCInputs.tla)",
 "C09": H + C % "import graphs (spec/MCImports.tla)",
 "C10": H + C % "import and spread graphs, cyclic ones included (spec/MCImports.tla)",
 "C11": H + C % "selection sets with mistakes (spec/MCSelect.tla)",
 "C12": H + C % "changes of introspection results (spec/MCIngest.tla) and histories with refused schemas (spec/MCQlc.tla)",
 "C13": H + C % "combinations of the sources of every option (spec/MCConfig.tla)",
 "C14": H + C % "histories of edits, runs and overwritten outputs (spec/MCQlc.tla; every step between runs)",
 "C15": H + C % "selection sets (spec/MCSelect.tla)",
 "C16": H + C % "descriptions over the characters that matter to comments (spec/MCText.tla)",
 "C17": H + C % "selections of deprecated fields and over-narrowed spreads (spec/MCWarn.tla)",
 "C18": H + C % "wrapper sequences and scalars in three positions (spec/MCWrap.tla), scalars under one key (spec/MCTwins.tla)",
 "C19": H + C % "selection sets (spec/MCSelect.tla)",
 "C20": "TLA+ model of the installation (spec/PostInstall.tla): TLC enumerates all behaviours of server, archive and platform; each is replayed on the real script and its recording checked against spec/Installer.tla",
 "C21": "TLA+ model of the download (spec/Fetch.tla): TLC enumerates all behaviours of the server; each is replayed on the real command and its recording checked against spec/Downloader.tla; downloaded schemas are compiled and judged by spec/Qlc.tla",
 "C22": H + "; the printed text is parsed into quotes, marks and names and judged by spec/Diagnostics.tla" + C % "names (spec/MCNames.tla)",
 "C23": H + "; the TypeScript compiler's verdict on the emitted modules is part of the recording" + C % "selection sets, wrappers and input-type graphs",
 "C24": "TLA+ model of a release (spec/Release.tla): TLC enumerates all versions, left-overs and single faults; each is replayed on the real scripts, the published package is installed on every platform, and the recording is checked against spec/Releaser.tla",
})
NOTES.update({
 "C01": "All interleavings of Pool up to 3 threads (4 on empty and flat trees) and trees of 4 items; on the real pool each of the small graphs' edges at least once, plus random and adversarial schedules. Preemption only at the shim's synchronisation operations (guarded hook); if the hooked build fails, free schedules only.",
 "C10": Q + "Crashes and hangs are observed, not modelled; arbitrary bytes only by mutation of valid files.",
 "C20": "Bounded scripts of up to 4 connections; the network and the clock are stand-ins that run the real script's code unchanged.",
 "C21": "Bounded server behaviours; https uses a test certificate authority.",
 "C24": "Single faults; the upload and publish tools, the network and the platform's name are stand-ins, tar, sed, grep and sha256sum are real.",
})
for k in TECH:
    NOTES.setdefault(k, Q)
