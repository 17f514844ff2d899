#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code only for readable line wrapping)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L = "src/ldaplusplus/"
I = "include/ldaplusplus/"

p("C01", "Every pass processes each document exactly once and always terminates",
  "In every training pass and every transform, each document of the corpus is given to the expectation step exactly once, "
  "its result is consumed exactly once and together with that same document, and the call returns with no worker left running. "
  "This holds for every number of workers (one or more), every corpus size including zero, every thread interleaving, and for any sequence of such calls on one object.",
  ["schedules", "histories", "configurations"],
  "all interleavings of the caller and the worker threads; all sequences of passes and transforms; workers >= 1; corpus sizes >= 0",
  "The tests run the pool a handful of times under whatever schedule the OS happens to produce, mostly with real corpora and one configuration; a lost wake-up, a stale queue entry or a dropped join needs a specific interleaving.",
  [L+"LDA.cpp", I+"LDA.hpp"],
  [("input queue popped under a mutex", L+"LDA.cpp doc_e_step_worker"),
   ("output queue with condition variable and predicate", L+"LDA.cpp extract_vp_from_queue"),
   ("pool created per pass and joined", L+"LDA.cpp create_worker_pool/destroy_worker_pool")],
  ["calls received by a recording expectation step, maximisation step and corpus"],
  [("queue_in_", "documents still to be processed", I+"LDA.hpp"), ("queue_out_", "results not yet consumed", I+"LDA.hpp")])

p("C02", "Transforming documents is independent of workers, schedule and history",
  "Transforming a set of documents, with an expectation step that needs no class, returns in the column of each document exactly the topic parameters that step computes for that document alone under the current model. "
  "The result does not depend on the number of workers, the thread interleaving, the other documents in the batch, the order of the documents or earlier training and transform calls, and it leaves the model untouched.",
  ["schedules", "inputs", "histories"],
  "all interleavings for small batches, all small batches and their permutations, all short call histories",
  "The tests transform one random corpus and check only shapes or rough values; they never compare against per-document results under other schedules or after other calls.",
  [L+"LDA.cpp", L+"em/UnsupervisedEStep.cpp", L+"e_step_utils.cpp"],
  [("result written to the column named by its queue index", L+"LDA.cpp transform"),
   ("expectation steps keep no per-document state", L+"em/*EStep.cpp"),
   ("transform does not shuffle", L+"LDA.cpp transform")],
  ["matrix returned by transform", "model parameters before and after"])

p("C03", "Batch training gives the same model for every schedule and worker count",
  "For the non-online algorithms, the model after any number of training passes is a function of the data, labels, configuration and seeds only: any number of workers and any interleaving give the same model up to the rounding of sums taken in a different order. "
  "During a pass no worker ever sees a partially updated model and no two threads touch the same data without synchronisation.",
  ["schedules", "configurations"],
  "all interleavings of small training passes for every expectation/maximisation pair of the library",
  "A data race or an order dependence shows only under particular interleavings; the tests run each algorithm on one schedule and check coarse accuracy.",
  [L+"LDA.cpp", L+"em/", I+"utils.hpp", L+"events/Events.cpp"],
  [("expectation steps compute into locals", L+"em/*EStep.cpp"),
   ("statistics accumulated on the calling thread only", L+"LDA.cpp partial_fit"),
   ("model written only after all workers joined", L+"LDA.cpp partial_fit")],
  ["model parameters after a pass", "happens-before order of all memory accesses"])

p("C04", "Training events reach every listener once, on the calling thread, in order",
  "During training and transform every registered listener receives one expectation event per document, the maximisation events and exactly one epoch event per training pass; each event is delivered exactly once, only on the thread that called, never two at a time. "
  "All expectation events of a pass are delivered before that pass's epoch event and before the call returns, and the epoch event carries the model as updated by that pass.",
  ["schedules", "histories"],
  "all interleavings of workers posting events while the caller processes them; all short sequences of calls; any set of listeners",
  "The tests count events after a run under one schedule; a lost, duplicated, late or cross-thread delivery depends on where a worker is preempted.",
  [L+"LDA.cpp", L+"events/Events.cpp", I+"events/Events.hpp", I+"LDA.hpp", L+"em/"],
  [("worker events are queued, processed by the caller after each result", L+"LDA.cpp process_worker_events"),
   ("an expectation step posts its event before its result is published", L+"em/*EStep.cpp"),
   ("owner-thread check", L+"events/Events.cpp SameThreadEventDispatcher::dispatch")],
  ["calls received by registered listeners"])

p("C05", "Event dispatchers deliver each event once to exactly the current listeners",
  "An event goes exactly once, in order of dispatch, to every listener registered when it is processed (each listener being registered at most once at a time); a removed listener receives none of the events that follow, and one added again afterwards does receive what follows. "
  "This holds for any sequence of registering, removing, dispatching and processing, including from several threads at once on the thread-safe kind and from inside a listener, and never deadlocks; an event dispatched from inside a listener is delivered exactly once as well. "
  "The same-thread kind delivers an event dispatched on the thread that made it at once, on that thread. Only a listener added or removed while an event is being delivered may or may not receive that one event.",
  ["histories", "schedules"],
  "all operation sequences up to a length for each dispatcher kind, including re-entrant ones; all interleavings of two or three threads using one dispatcher",
  "The tests contain two or three fixed sequences (add, dispatch, remove, dispatch) on one thread.",
  [L+"events/Events.cpp", I+"events/Events.hpp"],
  [("separate mutexes for listeners and events", L+"events/Events.cpp ThreadSafeEventDispatcher"),
   ("lists copied before delivery", L+"events/Events.cpp process_events")],
  ["calls received by listeners"])

p("C06", "A training run performs exactly the configured passes in the right order",
  "Fitting performs exactly the configured number of passes over one corpus, and a partial fit exactly one; each pass first shuffles the corpus once and, with one worker, takes the documents in that order; it visits every document through the maximisation step before the end-of-pass actions, then ends the expectation step, updates the model, and announces the epoch, once each and in that order. "
  "Transforming and predicting perform none of these, and fitting is equivalent to that many partial fits over the same corpus object.",
  ["histories", "schedules", "configurations"],
  "all sequences of fit, partial fit, transform and prediction calls up to a depth, all small iteration counts and worker counts",
  "The tests check that training runs and the result looks trained; the protocol between the parts is not observed.",
  [L+"LDA.cpp", I+"LDA.hpp"],
  [("one partial_fit per iteration on one corpus", L+"LDA.cpp fit"),
   ("fixed sequence at the end of partial_fit", L+"LDA.cpp partial_fit")],
  ["call sequence seen by recording expectation and maximisation steps, corpus and listeners"])

p("C07", "The shared random generator hands out each draw exactly once",
  "Random numbers drawn concurrently from the generator shared by workers are, together, exactly the sequence the wrapped generator produces for that seed, each drawn by one thread only; copies of the wrapper share the same stream. "
  "Hence no document has its likelihood computed when the fraction is 0 and every document when it is 1, on every schedule, and with one worker the choice of documents is determined by the seed.",
  ["schedules", "inputs"],
  "all interleavings of two or three drawing threads; all fractions in a small set; all seeds in a small set",
  "The existing test draws numbers from racing threads once, on an uncontrolled schedule.",
  [I+"utils.hpp", I+"em/AbstractEStep.hpp", L+"em/"],
  [("mutex around each draw, state shared by copies", I+"utils.hpp ThreadSafePRNG")],
  ["numbers drawn per thread", "finite likelihoods among the expectation events"])

p("C08", "Inference always yields well-formed topic parameters",
  "For every document with non-negative word counts (including an empty one) and every valid model (positive prior, each word of the document possible under some topic, classifier weights with representable exponentials), each inference algorithm returns finite parameters: each topic's weight is at least its prior, the weights sum to the prior sum plus the document length, and for each word in the document the topic responsibilities are non-negative and sum to one. "
  "This holds for every iteration limit and tolerance, in single and double precision, and the expectation event of the document is always posted.",
  ["inputs", "configurations"],
  "all word-count vectors up to a bound, all models from a small lattice including zero-probability entries and extreme classifier weights, all algorithms and limits",
  "The tests sample a few random dense documents per algorithm; empty documents, absent words, zero-probability words and extreme weights are not sampled.",
  [L+"em/", L+"e_step_utils.cpp", I+"utils.hpp"],
  [("normalisation guards against zero sums", I+"utils.hpp normalize_cols"),
   ("zero counts skipped in sums", I+"utils.hpp sum_cols_scaled"),
   ("absent words skipped", L+"e_step_utils.cpp")],
  ["variational parameters returned by each expectation step"])

p("C09", "Inference computes the documented updates and stops when documented",
  "Each inference algorithm returns what its documented coordinate updates produce when started from uniform responsibilities and repeated until the mean absolute change of the topic weights falls below the tolerance or the iteration limit is reached, whichever comes first. "
  "The tolerance, iteration limit, supervised weight (constant or decaying with completed passes), fixed-point count and class of the document each have exactly their documented effect and nothing else changes the result.",
  ["inputs", "configurations", "histories"],
  "all small documents, models, classes, limits and tolerances of a lattice, for every algorithm; all short histories of passes for pass-dependent weights",
  "The tests check that likelihood does not decrease on random data; they do not compare against the update equations, and several parameters are never varied.",
  [L+"em/", L+"e_step_utils.cpp", I+"em/"],
  [("update equations", L+"e_step_utils.cpp"), ("convergence test", L+"em/AbstractEStep.cpp"),
   ("weight schedule", L+"em/FastSupervisedEStep.cpp get_weight")],
  ["variational parameters returned by each expectation step"])

p("C10", "Reported likelihoods are the documented variational bound",
  "The value an expectation event carries for a document (for the supervised algorithms, one with at least one word) is the algorithm's documented lower bound evaluated at the returned parameters and the model used, or not-a-number when the document was not selected for likelihood computation. "
  "For the unsupervised algorithm one more iteration never lowers this bound by more than the accuracy of the approximated exponential.",
  ["inputs", "configurations"],
  "all small documents, models and parameters of a lattice, for every algorithm",
  "The tests only check the sign of changes on random data.",
  [L+"e_step_utils.cpp", L+"em/"],
  [("bound per algorithm", L+"e_step_utils.cpp compute_*_likelihood")],
  ["likelihood carried by expectation events"])

p("C11", "Topic updates are exactly the normalised expected counts of the pass",
  "After a batch training pass over at least one document, the word distribution of each topic that received any mass is the expected word counts of exactly the documents of that pass, normalised to sum to one, for every batch algorithm; the class tables of the multinomial and correspondence algorithms are the smoothed, normalised expected class counts of that pass, and the objective they announce once per pass is the expected log-probability of its classes under the table the pass started with. "
  "Nothing from an earlier pass carries over, each document counts once, and the order of documents does not matter beyond rounding.",
  ["inputs", "histories", "configurations"],
  "all sequences of small passes (sets of documents with responsibilities) up to a depth, all document orders, all batch maximisation steps",
  "The tests run one pass on random data and check normalisation of the result.",
  [L+"em/UnsupervisedMStep.cpp", L+"em/MultinomialSupervisedMStep.cpp", L+"em/CorrespondenceSupervisedMStep.cpp", L+"em/SupervisedMStep.cpp", L+"em/FastSupervisedMStep.cpp", I+"utils.hpp"],
  [("statistics accumulated per document and cleared per pass", L+"em/*MStep.cpp"),
   ("row normalisation", I+"utils.hpp normalize_rows")],
  ["model parameters after the maximisation step"],
  [("b_, h_", "sufficient statistics of the running pass", I+"em/*MStep.hpp")])

p("C12", "Classifier updates fit the pass's documents, never get worse, and stop",
  "In supervised batch training each pass moves the classifier weights by descending the documented regularised objective built from exactly the documents, classes and topic proportions of that pass: the objective never increases from its value at the weights the pass started with, reported objectives are those of the successive iterates, and the iteration limit and relative-improvement tolerance are respected. "
  "The weights stay finite for every valid input and the result does not depend on earlier passes other than through the starting weights.",
  ["inputs", "histories", "configurations"],
  "all small passes of documents, classes and proportions from a lattice, all limits and tolerances of a small set, sequences of passes of different sizes",
  "The tests run a single pass on random data.",
  [L+"em/FastSupervisedMStep.cpp", L+"em/SupervisedMStep.cpp", I+"optimization/GradientDescent.hpp", L+"optimization/"],
  [("buffers resized to the documents seen", L+"em/FastSupervisedMStep.cpp m_step"),
   ("progress callback decides when to stop", L+"em/FastSupervisedMStep.cpp")],
  ["classifier weights after a pass", "maximisation events"])

p("C13", "Online training updates the model from each full minibatch only",
  "Online training updates the model exactly when a minibatch is complete, also across pass boundaries, using only that minibatch: topics move to the weighted mean of the old topics and the minibatch's normalised expected counts, and classifier weights take one momentum step along the class-weighted regularised gradient on that minibatch. "
  "Documents in an incomplete minibatch change nothing until it is completed, and each update is announced once with the objective at the new weights.",
  ["histories", "inputs", "configurations"],
  "all sequences of documents and end-of-pass calls up to a length, all small minibatch sizes, momenta, learning rates, topic weights and class weights",
  "The test runs one random corpus and checks that parameters changed.",
  [L+"em/FastOnlineSupervisedMStep.cpp", I+"em/FastOnlineSupervisedMStep.hpp"],
  [("document counter triggers the update", L+"em/FastOnlineSupervisedMStep.cpp doc_m_step"),
   ("velocity kept between updates", L+"em/FastOnlineSupervisedMStep.cpp m_step")],
  ["model parameters after every document and pass", "maximisation events"])

p("C14", "Semi-supervised training treats unlabelled documents as unsupervised",
  "A document with a negative class is inferred exactly as the unsupervised algorithm would and contributes to the topics but never to the classifier; a document with a class is treated exactly as the supervised algorithm would. "
  "This holds for every mixture of labelled and unlabelled documents including none or all unlabelled, and every inner step's events and end-of-pass notifications are passed on exactly once.",
  ["inputs", "histories", "configurations"],
  "all label assignments including negative ones for small corpora, all inner step combinations, several passes",
  "The tests train one mixture of labels.",
  [L+"em/SemiSupervisedEStep.cpp", L+"em/SemiSupervisedMStep.cpp", L+"Document.cpp", L+"em/FastSupervisedMStep.cpp"],
  [("routing on the sign of the class", L+"em/SemiSupervisedEStep.cpp"),
   ("event forwarding from inner steps", L+"em/SemiSupervisedEStep.cpp constructor")],
  ["variational parameters, model after a pass, events"])

p("C15", "Predictions are a per-document function of topics and classifier weights",
  "The decision scores of a document are the classifier weights applied to its inferred topic proportions (topic weights minus prior, normalised), the predicted class is the first class with the highest score, and the combined transform-and-predict call returns exactly what the separate calls return. "
  "Each non-empty document's scores and class are independent of the other documents in the batch (empty ones included), the number of workers and earlier calls.",
  ["inputs", "histories", "configurations"],
  "all small batches, models and classifier weights from a lattice including ties, one-document and empty batches",
  "The tests check prediction accuracy on one synthetic data set.",
  [L+"LDA.cpp"],
  [("normalised proportions times weights", L+"LDA.cpp decision_function"), ("arg max per column", L+"LDA.cpp predict")],
  ["results of the prediction calls"])

p("C16", "Classifier objectives and gradients are the documented functions",
  "The value of each logistic regression objective is the documented class-weighted negative log-likelihood (first-order or second-order approximated) plus the L2 penalty, for every data set, class weighting and weight matrix, with default class weights inversely proportional to class frequency. "
  "The gradient is its exact derivative in every coordinate.",
  ["inputs"],
  "all small data sets, labels, class weightings, penalties and weight matrices of a lattice",
  "The tests compare gradient and finite differences on a few random points with a loose tolerance, and never check the value itself.",
  [L+"optimization/MultinomialLogisticRegression.cpp", L+"optimization/SecondOrderLogisticRegressionApproximation.cpp"],
  [("value and gradient", L+"optimization/*.cpp")],
  ["value and gradient of the objective classes"])

p("C17", "Gradient descent and line search honour their descent contract",
  "For a descent direction, backtracking line search moves along it by the largest step in its geometric sequence that satisfies the sufficient-decrease condition, returns the objective at the point it leaves, and never raises the objective; the constant line search moves by its constant. "
  "Gradient descent calls the progress callback with the value and gradient norm at the start and after every step with iteration numbers counting from zero in each minimisation, performs no step after the callback declines, and leaves the parameters at the last reported point.",
  ["inputs", "configurations", "histories"],
  "all problems, start points, directions and search parameters of a lattice; all callback answer sequences up to a length",
  "The tests minimise two convex problems from one start point.",
  [I+"optimization/GradientDescent.hpp"],
  [("backtracking loop", I+"optimization/GradientDescent.hpp ArmijoLineSearch::search"),
   ("callback-driven loop", I+"optimization/GradientDescent.hpp GradientDescent::minimize")],
  ["sequence of evaluations, gradients and callbacks on a recording problem"])

p("C18", "Arrays written and read through the npy format keep type, shape and values",
  "Every array saved in npy format can be read back by this library and by numpy with identical shape and identical values, including not-a-number, infinities, integer extremes, empty and one-dimensional arrays; every version 1 array numpy writes with a supported element type, either byte order and either memory order reads back identically here. "
  "Several arrays written one after another to one stream are read back in the same order, and an array of another element type is rejected rather than reinterpreted.",
  ["inputs", "configurations"],
  "all supported element types, byte orders, memory orders, all small shapes up to four dimensions, every number of dimensions up to 64, blocks larger than stream buffers, a table of special values, sequences of arrays",
  "The tests round-trip a few matrices of a few types through the library only.",
  [I+"NumpyFormat.hpp"],
  [("header construction and parsing", I+"NumpyFormat.hpp operator<< / operator>>"), ("byte swapping", I+"NumpyFormat.hpp swap_endianess")],
  ["bytes written", "matrix read"])

p("C19", "A truncated or unreadable file is rejected, never loaded as data",
  "Loading an array, a data set or a model whose file is missing, is not in the expected format or was cut short at any byte raises an error; it never returns a partly filled, zero-filled or reinterpreted result and never crashes. "
  "Loading a completely written file always succeeds.",
  ["crash_points", "fault_sequences", "inputs"],
  "every prefix (every crash or truncation point) of files of every element type and of multi-array data set and model files; every short-read pattern of the stream at a bounded number of points",
  "The tests contain one case, an empty file.",
  [I+"NumpyFormat.hpp", "src/applications/lda_io.cpp"],
  [("stream reads while parsing", I+"NumpyFormat.hpp operator>>")],
  ["outcome of load calls"])

p("C20", "The console programs do what their documented options say",
  "Training with the console programs produces a model file equal to what the library produces with the same options, seed and data, for every documented option combination; transform produces the library's transform for the stored model. "
  "Continuing from a stored model (supervised, or unsupervised with fresh classifier weights) starts from exactly that model, and snapshots appear after every requested number of iterations with the model of that moment. "
  "Transform leaves the stored model untouched, quiet runs print nothing, and a command line that is refused, or whose inputs cannot be read, ends with a nonzero status and leaves no model file.",
  ["configurations", "inputs", "histories"],
  "all combinations of a bounded option grid for each program and subcommand; sequences train, continue, transform",
  "No test runs the console programs at all.",
  ["src/applications/lda.cpp", "src/applications/slda.cpp", "src/applications/fslda.cpp", "src/applications/lda_io.cpp", "src/applications/SnapshotEvery.cpp"],
  [("option parsing into builder calls", "src/applications/*.cpp create_lda_*")],
  ["exit status and files written by the programs"])

p("C21", "The builder refuses incomplete models and configures exactly what was asked",
  "A builder turns into a model object only once topics are initialised and, if the most recently chosen expectation or maximisation step needs classifier weights, those are initialised too; otherwise it raises an error, as does initialising classifier weights before topics. "
  "After any sequence of builder calls (classifier weights being initialised after the topics they belong to) the object built uses the most recent choice for each aspect, with every parameter and documented default passed through unchanged.",
  ["histories", "configurations"],
  "all sequences of builder calls up to a depth over the full method alphabet; every parameter of every step distinguished",
  "The tests try a few valid and invalid sequences.",
  [L+"LDABuilder.cpp", I+"LDABuilder.hpp"],
  [("requires-weights flags", I+"LDABuilder.hpp set_*"), ("checks in the conversion", I+"LDABuilder.hpp operator LDA")],
  ["exceptions", "behaviour of the object built"],
  [("e_requires_eta_, m_requires_eta_", "whether the chosen steps need classifier weights", I+"LDABuilder.hpp")])

p("C22", "Initialisation is valid and equal seeds give identical runs",
  "Every initialisation yields valid parameters: each topic is a probability distribution over the words (seeded topics being strictly positive, the smoothed, normalised sum of the requested number of documents drawn from the corpus), the prior is one over the number of topics, and initial classifier weights are zero or uniform as requested. "
  "Repeating any sequence of calls of a batch algorithm (or the online one with minibatches that end with the pass) with the same data and seeds and one worker gives bit-identical results regardless of what ran before in the process or what memory contained.",
  ["histories", "inputs", "configurations"],
  "all small corpora, topic counts, draw counts and seeds of a grid; all short call histories for every algorithm, each run twice on different memory contents",
  "The tests check shapes and row sums for one configuration; repeatability is not tested.",
  [L+"LDABuilder.cpp", L+"LDA.cpp", L+"Document.cpp", L+"em/"],
  [("seeded generators", L+"LDABuilder.cpp initialize_topics_*"), ("seeded corpus shuffling", L+"Document.cpp CorpusIndexes")],
  ["model parameters after construction and after training"])

p("C23", "A corpus is always a permutation of its documents with their own labels",
  "After any number of shuffles a corpus presents each of its documents exactly once, every document together with its own class; before the first shuffle documents appear in the given order, and shuffling depends only on the seed and the number of shuffles. "
  "The reported class priors are the class frequencies among labelled documents and sum to one, and every document handed out stays valid and refers to its corpus.",
  ["inputs", "histories"],
  "all small corpora and label vectors including unlabelled documents, all shuffle counts up to a depth, all seeds of a small set",
  "The tests check a single shuffle of one corpus.",
  [L+"Document.cpp", I+"Document.hpp"],
  [("one index permutation for words and labels", L+"Document.cpp CorpusIndexes"), ("prior computation", L+"Document.cpp EigenClassificationCorpus")],
  ["documents, classes and priors read through the corpus interface"])

p("C24", "The numeric kernels are accurate over their whole domain",
  "The fast exponential is never not-a-number or negative for any number, its logarithm stays within max(1, 2|x|)/1022 of x for |x| up to 100, and beyond that it equals the exponential, saturating to zero or infinity alike; the digamma function stays within 2e-10 (3e-6, absolute plus relative, in single precision) of the true function for every positive argument. "
  "Normalising rows or columns keeps proportions, gives unit sums and leaves all-zero ones untouched, for every non-negative matrix; scaled sums ignore entries with zero weight, products skip zeros, and reshaping keeps the order of elements.",
  ["inputs"],
  "every single-precision argument (all 2^32 bit patterns in the thorough tier, a complete sub-range per exponent in the quick tier) and a dense double-precision set",
  "The tests compare a few hundred random points.",
  [I+"utils.hpp"],
  [("table look-up with argument halving", I+"utils.hpp fast_exp"), ("recurrence and asymptotic series", I+"utils.hpp digamma"), ("zero-sum guard", I+"utils.hpp normalize_*")],
  ["return values"])

p("C25", "Progress output and snapshots reflect the event history",
  "For every sequence of events the progress listeners print the pass number at its first document, the mean of the finite negative likelihoods reported in the pass (nothing if there are none), the document counts at the configured interval and every maximisation objective, and reset at each pass. "
  "The snapshot listener writes a model file exactly at every configured number of passes, numbered by pass, with the parameters at that moment, and loading it gives them back unchanged.",
  ["histories", "configurations"],
  "all event sequences up to a length over a small alphabet of events and values, all small intervals",
  "No test covers the listeners of the console programs.",
  ["src/applications/EpochProgress.cpp", "src/applications/ExpectationProgress.cpp", "src/applications/MaximizationProgress.cpp", "src/applications/SnapshotEvery.cpp", "src/applications/lda_io.cpp", "include/applications/"],
  [("per-pass counters reset on the epoch event", "src/applications/*Progress.cpp"), ("modulo pass counter", "src/applications/SnapshotEvery.cpp")],
  ["text printed", "snapshot files"])

p("C26", "A result that cannot be written completely is reported, never passed as saved",
  "Saving a model, a snapshot or an array, from the library or by training or transforming with the console programs, either writes the complete file or reports the failure (an exception, a bad stream, a nonzero exit status), wherever the failure occurs: opening the file or writing any byte of it. "
  "Whatever a failed write or a process dying at any byte leaves behind is rejected when loaded, is absent, or is the complete earlier file; transform never damages the stored model.",
  ["crash points", "fault points", "configurations"],
  "every byte position of every written file as the position of a failing or fatal write; targets that cannot be opened; with and without an earlier file in place",
  "The tests write to a healthy disk only; a fault at a particular byte cannot be sampled.",
  ["include/ldaplusplus/NumpyFormat.hpp", "src/applications/lda_io.cpp", "src/applications/SnapshotEvery.cpp", "src/applications/lda.cpp", "src/applications/slda.cpp", "src/applications/fslda.cpp"],
  [("stream state checked after closing", I+"NumpyFormat.hpp save"), ("stream state checked after closing", "src/applications/lda_io.cpp save_lda")],
  ["exceptions", "exit status", "files left behind"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
