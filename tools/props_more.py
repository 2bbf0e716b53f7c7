J = "kd/job.py"
prop("C10", "The runner's result.json is whole, true and about this run",
     "After any execution of the runner (python -m kd.runner), however it ends, result.json in its output directory is either "
     "absent or complete valid JSON that describes this execution: the configured model, dataset and parameters, the equation "
     "the model really found with status success, or status error with an error text, and a non-negative elapsed time. "
     "An earlier execution's result.json never remains once this one has started training. "
     "The process exits with status 0 only if a success is on disk and otherwise non-zero; a failing model or unreadable data is reported "
     "as an error; a failing visualization changes neither result nor exit status. "
     "The model is trained on exactly the configured data with the configured parameters.",
     ["crash_points", "fault_sequences", "histories"],
     "Every point at which the process may be killed or interrupted, every failing disk operation, every failure of the model "
     "or its pictures, every clock jump, every earlier content of the output directory.",
     "Tests run the runner to completion on a healthy disk, or call single functions of it.",
     ["kd/runner.py", "kd/viz/core.py", "kd/dataset/_base.py"],
     [("atomic result file", "kd/runner.py save_output"), ("stale result removal", "kd/runner.py main"),
      ("visualization isolation", "kd/runner.py save_viz"), ("configuration to model", "kd/runner.py run_dlga, run_dscv_spr")],
     observe=["result.json", "exit status", "arguments the models receive"],
     technique="deterministic simulation: runner processes under crash, disk, model and clock faults", note=TRUST)

prop("C11", "One submit call, at most one job; a downloaded result is that job's own",
     "A call to submit_gpu_job sends at most one submission to the platform, whatever the network does, and when it returns it returns the id of the one "
     "job it created. That job carries exactly the given model, dataset name, parameters and the user's data file byte for byte, "
     "under the caller's own credentials, in the given project, else the configured one, else the caller's first. "
     "Without a readable data file, credentials or a project nothing is submitted and the call raises. The temporary configuration file is gone "
     "afterwards, also on failure. check_job reports finished or failed exactly when the platform says so for that job. "
     "download_result reports that job's result.json as downloaded by this call: never an earlier download, another job's or another user's, nor "
     "a partly transferred file as a result; it touches nothing outside its directory. A failed call can be repeated and succeeds once faults stop.",
     ["fault_sequences", "schedules", "histories"],
     "Every sequence and interleaving of calls by several users, every lost request or reply, refusal, incomplete answer, torn or missing download, "
     "disk error and left-over file.",
     "Tests mock single SDK calls on the good path and check one error at a time.",
     [J], [("submission", J + " submit_gpu_job"), ("status mapping", J + " check_job"), ("download", J + " download_result"),
           ("credentials from cookies", J + " get_credentials")],
     observe=["calls the platform receives", "return values", "files"],
     technique="deterministic simulation: simulated platform with network, disk and scheduling faults", note=TRUST)

prop("C12", "The web application answers, keeps its job, and shows only what belongs to the session",
     "Every handler of app.py answers every event with all its outputs and never raises: failures of training, data, pictures, the platform, "
     "the disk or missing settings are shown as messages. A submitted cloud job's id stays in its session until its result is shown, it failed, it is cancelled "
     "or another training is started; lost requests, unreadable results and restarts of polling lose nothing, and once faults stop polling reaches the result. "
     "Equation, metrics and pictures shown are of the model or job of that very session, never of another session, user or earlier training. "
     "The values of the form reach the model exactly, locally and through the platform's runner alike. "
     "Only models that can handle the chosen dataset are offered. Every platform call uses the credentials of the session's own user.",
     ["schedules", "fault_sequences", "histories"],
     "Every sequence and interleaving of events of several sessions, every fault of platform, disk, model and pictures during them.",
     "Tests call single handlers of one session, with mocks, on the good path.",
     ["app.py", J, "kd/runner.py", "kd/viz/core.py", "kd/dataset/_registry.py"],
     [("polling and job state", "app.py poll handlers"), ("picture lock and temporary directory", "app.py run_viz"),
      ("parameter forms to configuration", "app.py _submit_gpu_training, training handlers"), ("offered models", "app.py dataset change handlers")],
     observe=["handler outputs", "arguments the models receive", "calls the platform receives"],
     technique="deterministic simulation: sessions as simulated threads against a simulated platform", note=TRUST)

prop("C13", "A visualization draws its own model, reports exactly what it wrote, and changes nothing else",
     "Every picture of a fitted model (kd.viz render and plot functions, and the older plotting modules) is the one a fresh process would draw, "
     "whatever was drawn, configured or failed before, whichever of the package's modules was imported first and whatever older files lie around. The reported paths are exactly complete pictures of this model inside "
     "the requested directory, else the configured one; a request yields a picture, a figure or a warning, and the values it reports as shown are the model's own or the given ones. Nothing is written elsewhere. "
     "Afterwards, also after a failure or interrupt, matplotlib's settings and the configuration are as before and the random generators are untouched; "
     "after a success no figure is left open.",
     ["histories", "crash_points", "fault_sequences"],
     "Every sequence of pictures and configuration changes in a process, every order of imports, every failing disk operation, every error or interrupt in the drawing code.",
     "Tests draw one picture in a fresh directory and check that a file exists.",
     ["kd/viz/**"],
     [("facade", "kd/viz/core.py render"), ("style context", "kd/viz/_style.py"), ("output paths", "kd/viz/_adapters")],
     observe=["VizResult", "files", "rcParams", "random generator states"],
     technique="deterministic simulation: seeded picture histories with disk faults and interrupts vs. a fresh process", note=TRUST)

prop("C07", "A Discover search never loses or misreports its best equation",
     "However a Discover, Discover-regression or sparse Discover search is driven (train, single steps, repeated training, plots in between) and whatever "
     "fails in the middle, the best reward never falls within one search and stays a number; it is the reward of the reported best equation, both before and after a failed "
     "step, and is never below the recorded history or a valid equation the search evaluated with a positive reward. Evaluated again from nothing, the best equation "
     "earns that reward and has those coefficients. The result names that equation, its reward and its text. "
     "The priority queue stays sorted, bounded and free of duplicates, holds the best equation met, and never drops one for a worse one; plots and listings change nothing.",
     ["histories", "crash_points", "fault_sequences"],
     "Every sequence of training and inspection calls, every error, interrupt or failing least-squares solve at any point of them.",
     "Tests run a few epochs undisturbed and check that a result exists.",
     [D, "kd/model/kd_discover_regression.py", "kd/model/discover/searcher.py", "kd/model/discover/memory.py", "kd/model/discover/program.py",
      "kd/model/discover/stridge.py", "kd/model/discover/task/**"],
     [("best tracking", "kd/model/discover/searcher.py search_one_step, search"), ("priority queue", "kd/model/discover/memory.py"),
      ("reward and coefficients", "kd/model/discover/stridge.py, program.py r_ridge")],
     observe=["result dict", "searcher.best_p, r_best, r_history", "priority queue"],
     technique="deterministic simulation: searches under seeded errors, interrupts and solver failures, invariants and re-evaluation", note=TRUST)

prop("C06", "An SGA search keeps its best equation and reports it truthfully",
     "The best score of an SGA search never gets worse when the same search runs for more generations, and no equation the search scored beats "
     "the reported one. The reported equation, its coefficients, its predicted right-hand side and its score belong together: evaluating the printed terms on the dataset by "
     "their ordinary meaning gives the prediction, whose mean squared error and number of terms give the score. The search never changes the "
     "data it works on, which is the dataset's own target field, axes and parameter fields in whatever order the axes come; where derivatives or a finer grid come from a "
     "neural surrogate, they are that of the surrogate trained on this data or stored in its model file, and a model file that is torn, unreadable or (with metadata) missing "
     "stops the fit instead of giving a result. A fit that fails or is interrupted while searching leaves the equation, score, details and context of the fit before as they were; "
     "with valid data and nothing failing a fit does not raise.",
     ["histories", "crash_points", "fault_sequences"],
     "Every seed, pool and data drawn, every number of generations, every sequence of fits, every error, interrupt or failing least-squares solve at any point of them.",
     "Tests run one short search each and check that an equation exists; helper tests evaluate hand-made trees.",
     ["kd/model/kd_sga.py", "kd/model/sga/**"],
     [("selection", "kd/model/sga/sgapde/solver.py SGA.cross_over, change, the_best"), ("term evaluation and caches", "kd/model/sga/sgapde/pde.py evaluate_mse"),
      ("coefficients and score", "kd/model/sga/sgapde/PDE_find.py Train, STRidge"), ("published equation", "kd/model/sga/sgapde/equation.py extract_equation_details"),
      ("data, surrogate and its file", "kd/model/sga/sgapde/context.py _init_variable_registry, _calculate_derivatives_autograd, _generate_metadata")],
     observe=["best_pde_, best_score_, best_equation_details_", "context_"],
     technique="deterministic simulation: searches under seeded errors, interrupts and solver failures; prefix replays and an independent evaluator", note=TRUST)

prop("C05", "Models in one process do not influence one another",
     "What a call on one estimator returns, and what that estimator then holds, is the same whether or not other estimators were built, set up, "
     "trained, used, failed or interrupted in the same process in between: its next training step, its predictions, its best equation, queue and plots "
     "stay its own. For Discover, regression and sparse Discover estimators this also holds when another one is fitted or used in another thread "
     "at the same time; fits wait for each other and never deadlock.",
     ["histories", "schedules"],
     "Every interleaving of the public calls of several estimators of any kind, sequentially (with the generators in the same state at each call) or in threads.",
     "Tests build one model per process or fit models one after the other without returning to an earlier one.",
     [D, "kd/model/kd_discover_regression.py", "kd/model/discover/program.py", "kd/model/discover/stridge.py", "kd/model/discover/library.py",
      "kd/model/kd_sga.py", "kd/model/kd_dlga.py"],
     [("ownership of the static variables of Program", D + " _own_program"), ("program's own task and library", "kd/model/discover/program.py _init"),
      ("cache", "kd/model/discover/program.py from_tokens, clear_cache; stridge.py cache")],
     observe=["return values", "searcher state", "predictions"],
     technique="deterministic simulation: seeded interleavings of calls and threads vs. each model alone in a process", note=TRUST)

prop("C03", "DLGA reports the best of its own training and its own search",
     "After a DLGA fit the network is exactly the checkpoint (every 500 iterations, else the last iteration) of this very training with the lowest validation loss, "
     "and the terms, predictions and equation come from it, whatever checkpoint and result files lie in the working directory or are written, damaged or removed there by "
     "another process meanwhile. The best fitness never gets worse from one generation to the next; the reported equation is the best found, with the left side, "
     "coefficients and fitness it really has. Every history has exactly one entry per iteration or generation of this fit. "
     "A vector of targets means the same as a column. A fit raises only when one of its own operations failed.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "Every earlier content of the working directory, every moment at which another process changes a file, every training in which a later checkpoint is worse, every earlier fit.",
     "Tests train a few iterations in a clean directory and never reach a second checkpoint.",
     ["kd/model/dlga.py", "kd/model/kd_dlga.py", "kd/utils/utils_GA.py"],
     [("best checkpoint", "kd/model/dlga.py train_NN, _load_best_state"), ("term library", "kd/model/kd_dlga.py generate_meta_data"),
      ("elitism", "kd/model/kd_dlga.py evolution, select"), ("fitness", "kd/model/dlga.py get_fitness")],
     observe=["Net weights", "Chrom, coef, Fitness, name", "histories", "predict"],
     technique="deterministic simulation: shared directory with a meddling process, disturbed optimizer, disk faults; independent recomputation", note=TRUST)

prop("C04", "Nothing the caller hands in is ever changed",
     "Fitting, predicting, drawing or sampling with any estimator leaves the caller's dataset, arrays, operator lists and configuration dictionaries byte for byte as "
     "they were, also when the call fails or is interrupted, in whatever memory layout they come, and at every moment while the call runs, so a dataset can be "
     "shared by several models. A dataset used before gives the same result as a fresh one. Samples, meshes and derivatives drawn from a dataset belong to the caller: changing them "
     "changes nothing else.",
     ["histories", "crash_points", "fault_sequences"],
     "Every sequence of calls sharing a dataset, every point at which one may fail, every executed line at which another thread could read the data.",
     "Tests compare no input after a call, and never after a failed one.",
     ["kd/model/**", "kd/dataset/_base.py", "kd/viz/**"],
     [("DLGA shuffles copies", "kd/model/dlga.py train_NN"), ("SGA's variables alias the dataset", "kd/model/sga/sgapde/context.py, pde.py"),
      ("Discover adapter", "kd/model/discover/adapter.py"), ("sampling", "kd/dataset/_base.py sample, mesh")],
     observe=["the caller's objects"],
     technique="deterministic simulation: shared inputs compared after every call and at seeded lines under errors and interrupts", note=TRUST)

prop("C09", "Loading data is exact or fails openly, whatever was loaded, changed or failed before",
     "Every load of a built-in dataset, a regression table or a user's .mat, .npy, .npz or .csv file, through any loading entry point, either yields exactly the "
     "field, axes and metadata that file holds now, with the field's shape equal to (length of x, length of t), or fails openly: it raises, or gives nothing and says why. "
     "A file that is missing, unreadable, cut short or lacks the named variables never becomes a dataset. "
     "The result does not depend on what was loaded before, on changes the caller made to earlier results, on failed or interrupted loads, on a replaced file's former content, on "
     "the working directory or on loads running in other threads; once faults stop everything loads again. "
     "Points, samples, meshes, ranges and derivatives taken from a dataset are the field's own values at those places, in whatever order its axes were given. "
     "Loading changes neither the working directory nor the random generators.",
     ["histories", "fault_sequences", "crash_points", "schedules"],
     "Every sequence of loads, changes of their results and replaced files in a process or in threads, every unreadable, vanished or shortened file, every error or interrupt in a loader.",
     "Tests load each dataset once from a healthy disk and check a shape.",
     ["kd/dataset/__init__.py", "kd/dataset/_base.py", "kd/dataset/_registry.py", "kd/runner.py"],
     [("registry loader", "kd/dataset/__init__.py load_pde, load_regression"), ("file loaders", "kd/dataset/_base.py PDEDataLoader, load_mat_file, load_pde_dataset"),
      ("uploaded data", "kd/runner.py load_dataset")],
     observe=["returned datasets and tables", "messages", "exceptions"],
     technique="deterministic simulation: seeded load histories and threads under file faults vs. the shipped files read independently", note=TRUST)

prop("C14", "An EqGPT search repeats exactly, keeps its best candidates and reports them truthfully",
     "With whole files a search always yields a result. KD_EqGPT with the same seed, files and settings gives exactly the same equations and rewards, whatever was searched, failed or was interrupted before in the process. The reported list holds at most "
     "ten distinct finite rewards in strictly descending order, and these are the best ones any candidate earned; more epochs never make it worse. Every reported equation, evaluated anew on exactly the selected wave cases "
     "with the surrogate networks used, earns the reward reported for it. A retrained surrogate is the checkpoint of its own training with the lowest validation loss. A case that has no stored surrogate is left out with a warning; any other missing, unreadable or "
     "cut-short file is an error, never a result of other data. No fit, successful, failed or interrupted, leaves temporary files behind or changes the shipped weights and data.",
     ["histories", "fault_sequences", "crash_points"],
     "Every sequence of searches in a process, every missing, replaced or torn file, every error or interrupt, every surrogate training in which a later checkpoint is worse, every generated candidate.",
     "Tests check one short search for shape and types, on healthy files.",
     ["kd/model/kd_eqgpt.py", "kd/model/eqgpt/**"],
     [("search loop and best list", "kd/model/kd_eqgpt.py fit_pde, _update_top10"), ("rewards", "kd/model/eqgpt/continue_train_GPT_all.py calculate_reward"),
      ("term values", "kd/model/eqgpt/calculate_terms.py"), ("surrogates", "kd/model/eqgpt/surrogate_model.py")],
     observe=["result dictionary", "rewards", "surrogate weights", "file tree"],
     technique="deterministic simulation: seeded search histories under file faults and disturbed training vs. a fresh process and an independent evaluator", note=TRUST)

# ---------------------------------------------------------------- pure functions of their input
prop("P01", "Derivatives and fitted coefficients are numerically accurate",
     "Finite-difference, Chebyshev and polynomial derivatives converge to the true derivatives of smooth fields at their documented order, and sparse regression "
     "recovers the coefficients of a noise-free linear combination of its terms.",
     ["inputs"], "Every smooth field, grid and coefficient vector.", "Tests sample a few fields.",
     ["kd/model/discover/utils.py", "kd/model/sga/sgapde/**", "kd/model/discover/stridge.py"],
     [("finite differences", "kd/model/sga/sgapde/pde.py"), ("STRidge", "kd/model/discover/stridge.py")],
     observe=["return values"], technique="none", note="not applicable")
na("P01", "a pure function of its input arrays: no schedule, time, I/O or fault influences it, so a simulator has nothing to decide (input generation or proof would)")
prop("P02", "The printed and LaTeX form of a program means the program",
     "For every expression tree over the token library, the infix text, SymPy form and LaTeX text denote the function the tree evaluates to.",
     ["inputs"], "Every expression tree.", "Tests render a handful of trees.",
     ["kd/model/discover/program.py", "kd/viz/discover_eq2latex.py", "kd/viz/sga_eq2latex.py", "kd/viz/dlga_eq2latex.py"],
     [("rendering", "kd/viz/discover_eq2latex.py")],
     observe=["text"], technique="none", note="not applicable")
na("P02", "a pure function of the tree: without history, schedule or faults it is a matter of input generation. What depends on the search's history is covered elsewhere: "
          "C06 re-evaluates SGA's printed equation, C07 re-evaluates Discover's best equation from its tokens")
prop("P03", "The PySR wrapper passes its parameters and data on and returns PySR's best equation",
     "KD_PySR hands data, feature names and parameters to PySRRegressor unchanged and reports its best equation.",
     ["inputs"], "Every parameter set and data.", "Tests skip without Julia.",
     ["kd/model/kd_pysr.py"], [("wrapper", "kd/model/kd_pysr.py")], observe=["return values"], technique="none", note="not applicable")
na("P03", "a stateless wrapper around an external Julia process that is not installed here; a stub for it would replace all the behaviour there is")
