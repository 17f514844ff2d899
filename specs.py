"""What each check builds, runs and claims."""
SPECS = {}


def spec(pid, level, technique, note, bounds, assumptions, programs, rule=None):
    SPECS[pid] = dict(level=level, technique=technique, note=note, bounds=bounds, assumptions=assumptions, programs=programs)
    if rule:
        SPECS[pid]["rule"] = rule


CORE = ["LDA.cpp", "Document.cpp", "Events.cpp"]
MC_ASSUME = ["sequentially consistent memory (a separate happens-before race detector reports every unsynchronised access)",
             "scheduling points: pthread mutex/cond/rwlock/once operations, thread start/join, non-refcount atomics, futex waits, sleeps and the stubs' explicit points"]

spec("C01", "model_checking", "stateless model checking of the real LDA worker pool under a controlled scheduler",
     "Every interleaving within the stated bounds of the real LDA.cpp with stub expectation/maximisation steps.",
     "workers 1..3, documents 0..3, call sequences up to length 2 (thorough 3); all interleavings for small cases, preemption bound 1..3 otherwise; plus every corpus size 0..70 (thorough 300) and sizes around powers of two up to 4097 with 12 worker counts up to 64, and all histories of 3 calls, free running; one corpus of 66000 documents; two objects at once on two threads",
     MC_ASSUME + ["the free-running part visits sizes and worker counts exhaustively but only the schedules that occur"], [dict(src="c01.cpp", mode="mc", tus=CORE), dict(src="c01_seq.cpp", mode="asan", tus=CORE)])

ESTEPS = ["e_step_utils.cpp", "AbstractEStep.cpp", "UnsupervisedEStep.cpp", "FastSupervisedEStep.cpp", "SupervisedEStep.cpp",
          "MultinomialSupervisedEStep.cpp", "CorrespondenceSupervisedEStep.cpp", "Document.cpp", "Events.cpp"]
FIN = "the enumerated lattice of inputs represents the input classes named in the bounds; values between lattice points are not explored"
KERN = "the library's own fast_exp and digamma are used as the kernels of the reference model (C24 decides those)"

spec("C08", "model_checking", "exhaustive enumeration of a bounded input/configuration lattice on the real expectation steps, invariants checked on every result",
     "Every case of the stated lattice is run on the real code; crash, hang and out-of-bounds access are attributed to their case.",
     "5 algorithms x single/double x (35 documents over 3 words incl. empty, counts 0..2 and up to 50000) x 8 topic matrices (1..4 topics, zero entries) x 3..4 priors x classifier tables up to magnitude 45 x classes x 5 limit/tolerance pairs; 750 larger shapes up to 17 topics, words and classes; word counts up to 1e9",
     [FIN, "valid model: positive prior, every word of the document has positive probability under some topic"],
     [dict(src="c08.cpp", mode="asan", tus=ESTEPS)])
spec("C09", "model_checking", "exhaustive enumeration of a bounded input/configuration lattice; a reference model of the documented updates is executed alongside the real code (conformance of every trace)",
     "The executable reference model of the coordinate updates and stopping rule is compared with the implementation on every case.",
     "as C08 in double precision with 7 (thorough 15) iteration-limit/tolerance pairs, half of the cases after another document on the same object; pass-dependent weight for 0..4 completed passes; single precision for one iteration; word counts up to 1e9; iteration limits up to 65538, fixed-point limits up to 300, up to 300 completed passes; all triples of 7 cases on one step and one model object overwritten in place",
     [FIN, KERN], [dict(src="c09.cpp", mode="asan", tus=ESTEPS)])
spec("C10", "model_checking", "exhaustive enumeration of a bounded input/configuration lattice; the documented bound is evaluated by a reference model at the returned parameters",
     "Every reported likelihood in the lattice is compared with the bound; ascent is checked over every prefix of iterations.",
     "as C08 with 5 limits; ascent over 12 (thorough 40) iterations; likelihood fractions 0, 0.5 and 1; all triples of 7 cases on one model object overwritten in place",
     [FIN, KERN, "supervised bounds only for documents with at least one word"], [dict(src="c10.cpp", mode="asan", tus=ESTEPS)])
OPT = ["MultinomialLogisticRegression.cpp", "SecondOrderLogisticRegressionApproximation.cpp"]
spec("C16", "model_checking", "exhaustive enumeration of a bounded lattice of problems; value and every partial derivative compared with a reference model in extended precision",
     "Every case of the stated lattice is run on the real objective classes.",
     "1,2,3,5 topics x 1..4 classes x 1..4 (thorough 6) documents, all label assignments, 6 weight matrices, 4 data matrices, 3 penalties, default/uniform/explicit class weights, 3 variance kinds incl. asymmetric; single and double precision; scores up to magnitude 690",
     [FIN], [dict(src="c16.cpp", mode="asan", tus=OPT)])
spec("C17", "model_checking", "exhaustive enumeration of problems, start points, search parameters and callback answer sequences on the real templates, against a reference model of the contract",
     "Every callback answer sequence up to the bound and every search of the lattice is executed on the real code.",
     "8 problem families x 4 shapes x 8 start points x 4 descent directions x 16 search parameter pairs; callback sequences up to 8 (thorough 40) steps; single and double precision; extreme scales; callback sequences of up to 66000 steps; all sequences of three minimisations of one object over 4 problems",
     [FIN, "directions are descent directions or zero"], [dict(src="c17.cpp", mode="asan", tus=[])])
MSTEPS = ["UnsupervisedMStep.cpp", "FastSupervisedMStep.cpp", "SupervisedMStep.cpp", "SemiSupervisedMStep.cpp", "MultinomialSupervisedMStep.cpp",
          "CorrespondenceSupervisedMStep.cpp", "FastOnlineSupervisedMStep.cpp", "Document.cpp", "Events.cpp"] + OPT
spec("C11", "model_checking", "exhaustive enumeration of histories of passes on the real maximisation steps, compared after every pass with a reference model",
     "All histories of one to three passes over the document alphabet, all orders, every batch step.",
     "6 batch steps; alphabet of 6 documents (empty, one-topic, long, unlabelled for the semi-supervised step); all two-pass histories (first pass up to 2, second up to 3 documents), all three-pass histories of up to 2 documents from 4 (thorough 6), half of them with a second step object used in between; 100 larger shapes",
     [FIN, "passes contain at least one document; only topics that received mass are compared"], [dict(src="c11.cpp", mode="asan", tus=MSTEPS)])
spec("C12", "model_checking", "exhaustive enumeration of passes, earlier passes, limits and tolerances on the real maximisation steps, compared with a reference model of the objective",
     "For every case the run is repeated with every iteration limit 0..n so that each iterate is observable.",
     "all passes of up to 3 documents from 6, 5 starting weights, 3 penalties, 3 tolerances, 4 histories of earlier passes (half with a second step object used in between), limits 0..5 (thorough 12); passes of up to 130 documents; documents of up to 3e8 words",
     [FIN, "weights whose exponentials stay representable"], [dict(src="c12.cpp", mode="asan", tus=MSTEPS)])
spec("C13", "model_checking", "exhaustive enumeration of operation sequences (documents, end of pass) on the real online step, lock-step with a reference model",
     "State compared after every operation of every sequence.",
     "all sequences of 5 (thorough 7) operations over 3 documents and end-of-pass, all sequences of 4 over 6 documents, minibatch 1..3, 288 configurations; sequences of 300 operations with minibatches up to 128 and up to 2000; 130 and 260 classes; 98304 sequences with a second step object used in between",
     [FIN], [dict(src="c13.cpp", mode="asan", tus=MSTEPS)])

ALLE = ESTEPS + ["SemiSupervisedEStep.cpp", "LDA.cpp"]
ALLEM = sorted(set(ALLE + MSTEPS))
SEQ = "exhaustive enumeration of "
spec("C02", "model_checking", "stateless model checking of the real LDA::transform under a controlled scheduler, plus exhaustive enumeration of batches, permutations and call histories",
     "All interleavings within the bounds; on every one each column is compared with a reference inference of that document alone and the model with its value before the call.",
     "schedules: batches of 1..3 documents, 1..3 workers, histories of up to 3 calls, preemption bound 1..3 or all; inputs: every ordered batch of up to 3 (thorough 4) documents from 7, 4 worker counts, 3 tolerances, both precisions; every history of 5 (6) calls over 6 batches; batches of up to 130 (1000) documents; larger shapes; batches of up to 66000 documents; two objects at once on two threads",
     MC_ASSUME + [KERN, "an expectation step that needs no class (transform has none to offer)"], [dict(src="c02_mc.cpp", mode="mc", tus=ALLEM), dict(src="c02.cpp", mode="asan", tus=ALLEM)])
spec("C03", "model_checking", "stateless model checking of real training passes under a controlled scheduler with a happens-before race detector",
     "Every schedule's model is compared with a sequential run of the same steps, and every memory access is checked for an unsynchronised partner.",
     "6 expectation/maximisation pairs, 2..3 workers, 2..3 documents, 1..2 passes, likelihood fraction 0/0.5/1, preemption bound 1..3; plus free-running comparisons for 1..16 workers, up to 200 documents and 3 (thorough 6) passes, fit and partial fit, both precisions",
     MC_ASSUME + [KERN, "online training updates the model during the pass and is outside the statement"], [dict(src="c03_mc.cpp", mode="mc", tus=ALLEM), dict(src="c03.cpp", mode="asan", tus=ALLEM)])
spec("C04", "model_checking", "stateless model checking of the real training loop, dispatcher and expectation steps under a controlled scheduler",
     "Counts, threads, order and contents of the events each listener receives are checked on every schedule.",
     "1..3 workers, 0..3 documents, 0..3 listeners, call sequences up to length 3, all schedules for the small cases and preemption bound 1..3 otherwise; objects moved and listeners leaving and returning between calls; objects used on another thread than the one that made them; two objects at once; stub steps for exact counts and all real expectation steps for contents",
     MC_ASSUME, [dict(src="c04.cpp", mode="mc", tus=ALLEM)])
spec("C05", "model_checking", SEQ + "operation sequences on the real dispatchers in lock-step with a delivery model, and stateless model checking of concurrent use",
     "Every sequence within the bounds is executed on each of the three dispatchers and compared with the model after every operation; concurrent scenarios run on every schedule.",
     "3 dispatchers; all sequences of 6 (thorough 8) operations over 3 listeners; all of 5 (6) with re-entrant listeners (adding, removing, dispatching, processing inside a delivery); all sequences of 6 operations that dispatch the same objects again; all sequences of 5 (6) operations on two dispatchers in turn; 12 concurrent scenarios of 2..3 threads, all schedules or preemption bound 3+",
     MC_ASSUME + ["a listener is registered at most once at a time", "listeners added or removed while an event is being delivered may or may not receive that event"], [dict(src="c05.cpp", mode="plain", tus=["Events.cpp"]), dict(src="c05_mc.cpp", mode="mc", tus=["Events.cpp"])])
spec("C06", "model_checking", "stateless model checking of the real training loop with recording steps, every call sequence up to a depth",
     "The recorded sequence of calls is checked against the protocol on every schedule; fit and repeated partial fits are compared document by document and model by model.",
     "all sequences of 2 (thorough 3) calls over 8 public calls, 0..3 documents, 0..3 iterations, 1..3 workers, preemption bound 0..2; every real step pair with 1..130 documents and 0..8 (24) iterations; 5000 passes (thorough 66000)",
     MC_ASSUME, [dict(src="c06.cpp", mode="mc", tus=CORE), dict(src="c06_seq.cpp", mode="asan", tus=ALLEM)])
spec("C07", "model_checking", "stateless model checking of concurrent draws from the real generator wrapper and of training passes with sampled likelihoods",
     "On every schedule the union of the draws is compared with the wrapped generator's own sequence; likelihood selection is counted for fractions 0, between and 1.",
     "2 generators, 3 seeds, shared object and copies; 2 threads x 2 draws (preemption bound 4, thorough all), 3 x 2 (2, thorough 4), thorough 4 x 4; generators of one seed on 2..3 threads and side by side; 6 step pairs x 3 fractions x 1..2 workers; long draw sequences",
     MC_ASSUME, [dict(src="c07.cpp", mode="mc", tus=ALLEM)])
spec("C14", "model_checking", SEQ + "label assignments, documents, inner steps and histories on the real semi-supervised steps, compared with the inner algorithms run separately",
     "Every sequence is run on the composite and, separately, on stand-alone inner steps; results, statistics and events have to agree.",
     "5 inner expectation step combinations x all sequences of 3 (thorough 4) operations from 17; maximisation: all pairs of 30 documents with a second pass, all triples of 15 with 3 later passes; full training of all label vectors over {-1,0,1,2} for 1..4 documents, 1..3 passes, 1/2/4 workers; streams, passes and trainings of a few thousand documents",
     [FIN, KERN], [dict(src="c14.cpp", mode="asan", tus=ALLEM)])
spec("C15", "model_checking", SEQ + "batches, models, classifier tables and call histories on the real prediction calls, against a reference model",
     "Scores, classes and combined results of every case are compared with a per-document reference.",
     "all batches of up to 3 (thorough 4) documents from 6, 1..3 topics, 1/2/3/5 classes, 8 classifier tables including ties, 1 and 3 workers, both precisions; all histories of 3 earlier calls; batches of up to 300; 300 (1400) mixed calls on one object; the decision function on its own tables directly",
     [FIN, KERN, "scores of empty documents are not compared, but they must not disturb the others"], [dict(src="c15.cpp", mode="asan", tus=ALLEM)])
spec("C23", "model_checking", SEQ + "corpora, label vectors and shuffle histories on the real corpus classes, against a permutation model",
     "After every shuffle of every case the corpus is read completely through its interface.",
     "all label vectors over {0,1,2,-1,5} for up to 5 (thorough 7) documents x 3 seeds x 4 (6) shuffles; sizes up to 130 (400) x 4 seeds x 12 shuffles",
     [FIN], [dict(src="c23.cpp", mode="asan", tus=["Document.cpp"])])
spec("C18", "model_checking", SEQ + "element types, byte orders, memory orders, shapes and sequences of arrays, on the real reader and writer against numpy",
     "Every case is written by one side and read by the other; numpy is the oracle in both directions.",
     "10 element types x 2 byte orders x 2 memory orders x 100+ shapes up to 3 dimensions with special values; all 8 and 16 bit values; every foreign element type pair; all streams of three arrays from 24 (thorough 40); 6 writer forms; files overwritten with other shapes and types",
     [FIN, "payload bits of not-a-number are not compared"], [dict(src="c18.cpp", mode="asan", tus=[])])
spec("C19", "model_checking", SEQ + "every truncation point, delivery pattern and single-byte change of the files the library reads, on the real loaders",
     "Every prefix of every file in the set is loaded; only the complete file may load.",
     "arrays of 10 types (both byte and memory orders): every prefix x 4 delivery patterns (whole, byte-wise, 7 bytes, failing device); data set and model files of 3 sizes: every prefix; every value of every header byte; foreign and missing files",
     [FIN, "a file is changed by truncation or foreign content; flipped payload bytes cannot be detected by the format"], [dict(src="c19.cpp", mode="asan", tus=[], repo=["src/applications/lda_io.cpp"])])
spec("C24", "model_checking", SEQ + "the argument space of the numeric kernels (every single-precision value), against an extended-precision reference",
     "Quick covers every single-precision value in the table's range and a full lattice elsewhere; thorough covers all of them.",
     "fast_exp: every float with 2^-11 <= |x| < 128 (thorough: every float), all double exponents with 8 (14) leading mantissa bits, both sides of every table cell edge in 18 octaves; digamma likewise; normalisation of every matrix up to 6 entries over 5..7 values and shapes up to 40x40; shapes beyond 65536 entries",
     [FIN, "digamma reference: long double recurrence and asymptotic series"], [dict(src="c24.cpp", mode="plain", tus=[], flags=["-O2"])])
spec("C25", "model_checking", SEQ + "event sequences on the real listeners in lock-step with a model of their output and files",
     "Output and files are compared after every event of every sequence.",
     "all sequences of 6 (thorough 7) events from 8 and of 5 (6) from the full alphabet, intervals 1..5, value scales 1e-8..1e300, passes of up to 430 documents, up to 1200 passes; snapshot sequences of 5 (6) and 600 shapes; very long passes; every interval; all interleavings of 4 (5) events of two runs; two snapshot listeners",
     [FIN], [dict(src="c25.cpp", mode="asan", tus=["Events.cpp"], repo=["src/applications/" + f for f in ("EpochProgress.cpp", "ExpectationProgress.cpp", "MaximizationProgress.cpp", "SnapshotEvery.cpp", "lda_io.cpp")])])
spec("C21", "model_checking", SEQ + "sequences of builder calls on the real builder in lock-step with a model of its state, the object built compared by its behaviour",
     "After every sequence the conversion is attempted; errors must match the model and the object's results those of directly constructed steps.",
     "every parameter of every step given or defaulted (all prefixes, two values each); all sequences of 3 (thorough 4) of 25 calls; all of 5 (6) over a flag-related alphabet of 10; worker and iteration counts of objects moved 0..2 times",
     [FIN, "classifier weights are initialised after the topics they belong to"], [dict(src="c21.cpp", mode="asan", tus=None)])
spec("C22", "model_checking", SEQ + "initialisations and call histories, every history run twice on differently filled memory and compared bit by bit",
     "Allocations are filled with different patterns between the two runs, so any dependence on memory contents shows.",
     "all histories of 2 (thorough 3) of 6 calls x 8+ algorithms x 4 initialisations x 4 seeds x 3 likelihood fractions, both precisions; histories of 12 (40) calls; seeded initialisation for 1..6 documents, 1..4 topics, 8 draw counts; random for 40x12 shapes; larger shapes of both; a twin object trained before every call",
     [FIN, "one worker"], [dict(src="c22.cpp", mode="plain", tus=None)])
spec("C20", "model_checking", SEQ + "option sets and command sequences of the real console programs, files and output compared with the library driven directly",
     "Each case runs the real program in a scratch directory and recomputes the expected model, snapshots and output through the library.",
     "4 training commands x every single option value and every pair (thorough: triple), on defaults and on a small model; 432 transforms per program; all chains of 3 programs on stored models; 18 refused command lines per program; parameter values across each documented range",
     [FIN, "real-valued options may be held in single or double precision"], [dict(src="c20.cpp", mode="plain", tus=None, apps=True)])
spec("C26", "model_checking", "exhaustive fault injection: every byte position at which writing a result can fail or the process can die, on the real writers and programs",
     "For every position the write fails (or the process is killed there); what is reported and what is left on disk are checked.",
     "model, snapshot and array files of 5 shapes: a failing or killing write at every byte position, with no, an older and a longer file in place; files larger than the stream buffer around every multiple of 512 bytes (thorough: every byte); streams full after every byte, 3 delivery patterns; every training command and transform of the console programs with a failing or killing write at every byte; one write (whole or cut at 9 places) failing among working ones, for files of up to 12 writes; targets that cannot be opened in 5 ways",
     [FIN, "a failing device refuses every write beyond a position, or one write only; what was written before stays"], [dict(src="c26.cpp", mode="plain", tus=["Events.cpp"], repo=["src/applications/SnapshotEvery.cpp", "src/applications/lda_io.cpp"], apps=True)])
