# per property: how the simulation decides it
HOW = {
"S01": "Store a random package in every format; load it from a source that splits, interrupts and delays its bytes by schedule; compare package, bundled extensions and description with a load from one slice.",
"S02": "The same sources fail or end at scheduled byte positions (all of them for small documents). Loading must fail, or give the stored package if all its bytes had arrived.",
"S03": "Damage the stored bytes (bit flips, lost, zeroed, duplicated, swapped blocks, altered numbers, splices of two versions) at scheduled places, load, describe, validate and store what loads. A panic, abort, hang or memory use out of proportion is a violation.",
"S04": "Store into a destination that takes scheduled amounts, interrupts, fails, is full, or fails to flush. Success requires that the bytes accepted are the complete document, that it loads back to the package, and that a flush reached the end; bytes must not depend on the schedule.",
"S05": "A history of edits, rewrites and passes with scheduled saves, crashes and reloads through scheduled formats; the reloaded program is compared with the one that was saved, then the history continues on it.",
"S06": "The real command line binary under a preloaded libc shim that shortens, interrupts, fails or fills up reads, writes, opens and closes by schedule; exit status and output are compared with an undisturbed run.",
"G01": "Random histories of edits over several graphs; a table model predicts every query; all queries are compared after every step, including slot reuse.",
"G02": "Agents plan rewrites of every kind, sound or not, against the version they see; others edit; plans are checked and applied when their turn comes. Check and application must agree, refusals leave the table model unchanged, nothing crashes.",
"G03": "Agents apply meaning-preserving rewrites to programs in scheduled order; after each step the program must be valid, and a reference interpreter runs its functions before and after on random inputs.",
"G04": "Insert and link programs in scheduled order with random directives; compare the result with the union predicted by the table model.",
"V01": "Users fork, extend, merge and drop versions in scheduled order; a reference keeps an ordinary graph per version to which the rewrites were applied one by one; every live version is compared through the view and materialised.",
"V02": "Random histories of rewrites; a reference computes from the replaced nodes whether a set is combinable; compared with the answer, for scheduled orders and groupings.",
"V03": "Save histories at scheduled points, crash, restore, compare versions and conflicts, and continue both the original and the restored history with the same rewrites.",
"V04": "Walkers pin, expand, select and create by schedule; after each step pinned nodes must be in the program, refusals must change nothing, and the alternatives are compared with the reference's enumeration.",
"V05": "Scheduled refused operations (conflicts, unknown parents, empty, ill-fitting rewrites) on shared histories; everything held is compared before and after; reference counts of commits are tracked across drops.",
"E01": "Random histories of registry operations by several owners of clones; a table model predicts contents and validation.",
"E02": "Build and load programs through scheduled registries, drop handles in scheduled order, then use everything; missing extensions at load.",
"E03": "Fresh processes touch the standard definitions first in scheduled order from scheduled threads; results compared with a reference process.",
"O01": "Random sequences of passes over random programs; validity after each, and the reference interpreter before and after.",
"O02": "The same history replayed under different hash seeds and after different earlier work; bytes, verdicts and programs compared.",
"O03": "Replacement tables whose callbacks refuse or misbehave at scheduled calls; reported error required; on success no replaced type or operation may remain and the program must be valid.",
"Y01": "Random histories over the Python graph classes against a table model, with restarts from the stored form, torn stored forms, and every stored form loaded by the Rust implementation; programs built with several builders continued in scheduled order, validated by Rust.",
}
