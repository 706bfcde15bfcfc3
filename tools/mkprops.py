import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw))
    P.append(d)
INV=["src/fora/inventory_wrapper.py","src/fora/loader.py","src/fora/types.py","src/fora/utils.py"]
p("C01","Group modules load in dependency order, once per host, host module last",
 "When an inventory is loaded, then for every host exactly the modules of the groups it belongs to (always including `all`) are executed, each exactly once, followed by the host's own module. `all` runs first, and whenever one group must come after another according to the declared `after`/`before` relations - directly or through any chain of groups, including groups the host is not a member of - the modules run in that order.",
 ["inputs","configurations"],"every set of group declarations with an acyclic after/before relation, every assignment of hosts to groups, every spelling of the declarations (string, dict, object, duplicates) and every presence/absence of module files",
 "Tests load three fixed inventories; ordering bugs need particular DAG shapes, declaration orders or hash orders that a handful of samples does not hit.",
 INV,[("topological sort of group declarations","src/fora/inventory_wrapper.py:_calculate_topological_order, src/fora/utils.py:rank_sort"),("per-host module chain","src/fora/inventory_wrapper.py:instanciate_host/load_group/load_host")],observe_at=["execution order of the user's group/host module files","loaded_hosts"])
p("C02","Host variables follow the documented inheritance and never leak between hosts",
 "While inventory modules are loaded, each module sees exactly the variables produced so far for that host: inventory globals and per-host declared variables first (the latter win), then the effect of each group module in load order, then the host module, and the finally loaded host exposes the result of that chain. Values set, or modified in place, while loading one host are never visible on another host, and private names and imported modules are not inherited.",
 ["inputs","histories"],"every assignment, in-place modification or absence of every variable in the inventory, the per-host declaration, each group module and the host module, for every pair of hosts",
 "The result depends on the combination of actions over a chain of modules and on sharing between hosts; tests only check one variable in one chain.",
 INV,[("initializer chaining","src/fora/inventory_wrapper.py:instanciate_host, load_group, load_host"),("export rules","src/fora/types.py:ModuleWrapper.exported_variables")],observe_at=["globals seen by user modules","attributes of loaded hosts"])
p("C03","Ambiguous variable definitions from unordered groups are rejected, others not",
 "If two groups of a host are not ordered relative to each other by the declared dependencies (directly or transitively), and both assign the same variable - or one assigns it and the other modifies it in place - loading the inventory fails with a conflict error. If every such pair is ordered, or both only modify the value in place, loading succeeds without a conflict; assignments of the host module or overriding the declared host variables are never conflicts.",
 ["inputs","configurations"],"every acyclic group relation, every host membership and every combination of assign/modify/untouched per group and variable",
 "Detection depends on the shape of the whole dependency graph (chains of different length, diamonds), of which the tests sample two.",
 INV,[("conflict detection","src/fora/inventory_wrapper.py:instanciate_host.record_variable_change")],observe_at=["load_inventory outcome"])
p("C04","Invalid inventories are rejected before anything runs, valid ones load fully",
 "Loading an inventory fails with an error when two hosts or two groups share a name, an undeclared group is referenced by a host or by an ordering, a group depends on itself, the orderings are cyclic, a declaration has the wrong form, or a module file explicitly named for a used group or host does not exist; no group or host module has been executed when an error in the declarations themselves (anything but a missing file) is reported. Any inventory without such an error loads, with one entry per declared host under its declared or url-derived name, in declaration order.",
 ["inputs","configurations"],"every inventory built from host/group declarations, including cyclic and self-referential ones of any length",
 "Cycle and duplicate detection must hold for all graph shapes; tests contain one cycle.",
 INV,[("declaration preprocessing and validation","src/fora/inventory_wrapper.py:_preprocess_host_declarations,_preprocess_group_declarations,_ensure_used_groups_are_declared,_detect_self_dependencies,_calculate_topological_order")],observe_at=["load_inventory outcome","loaded_hosts"])
p("C05","A run drives exactly the selected hosts, one at a time, and stops on failure",
 "`fora INVENTORY SCRIPT` executes the script once for each selected host (all hosts in inventory order by default, or the comma separated selection in the order given, repeated names once), each over its own freshly opened connection that is closed before the next host starts. Naming an unknown host aborts before any connection is opened; when connecting or the script fails on a host, its connection is closed, no later host is contacted and the process reports failure.",
 ["inputs","fault_sequences","histories"],"every inventory, every host selection (including duplicates and unknown names), and a failure at any host in connecting, in the script or when disconnecting",
 "Only the success path of a single run is tested; the failure paths multiply with the host position and phase.",
 ["src/fora/main.py","src/fora/connection.py","src/fora/loader.py"],[("host loop","src/fora/main.py:main_run"),("connection context","src/fora/connection.py:open_connection")],observe_at=["connector open/close events","script executions","process exit status"])
p("C06","Every remote request gets its own response; failures do not disturb others",
 "Over an open connection, the result (or error) delivered for a request is the one belonging to that request, for any sequence of run, stat, user, group, environment, upload and download requests and any payload bytes. A request that fails remotely or cannot be sent raises an error in the caller, has no effect on the answers to other requests, and leaves the connection usable.",
 ["histories","inputs"],"every sequence of request kinds and outcomes over one connection and all argument/payload values the API accepts",
 "A desynchronised stream shows up only in the request after an unusual one (error replies, optional fields, odd bytes), i.e. on particular sequences.",
 ["src/fora/connectors/tunnel_connector.py","src/fora/connectors/tunnel_dispatcher.py","src/fora/connectors/connector.py"],[("packet framing","src/fora/connectors/tunnel_dispatcher.py:_serialize/_deserialize"),("request handlers","src/fora/connectors/tunnel_dispatcher.py:Packet*.handle"),("client requests","src/fora/connectors/tunnel_connector.py")],observe_at=["return values and exceptions of the connection API"])
p("C07","A connection cut at any byte never yields invented results or partial execution",
 "If the stream between the two sides ends after any number of bytes, the caller's pending request raises an error rather than returning a (possibly truncated) result, and a request of which only a part arrived is never executed on the remote side. All later requests on that connection fail too; none hangs or reports success.",
 ["crash_points","fault_sequences"],"every byte position in the request stream and in the response stream, for every request kind",
 "Tests never break the connection; a truncated string or blob looks like a valid shorter one.",
 ["src/fora/connectors/tunnel_connector.py","src/fora/connectors/tunnel_dispatcher.py"],[("exact-length reads","src/fora/connectors/tunnel_dispatcher.py:Connection.read"),("dispatcher loop","src/fora/connectors/tunnel_dispatcher.py:main")],observe_at=["caller-visible result","files/commands on the remote side"])
p("C08","A remote command runs exactly as requested and reports exactly what happened",
 "A command executes once with exactly the given argument vector, standard input bytes, user, group, umask, and working directory, with settings not given falling back to the current defaults (and the group, if nothing specifies one, to the user's primary group); the process has the supplementary groups of its user. When any of them cannot be applied the command does not run and an error is raised. Output bytes and exit status are returned unchanged, and a non-zero status raises if and only if checking was requested.",
 ["inputs","configurations"],"every argument vector, input, user/group/umask/cwd combination and exit status",
 "Combinations of identity, umask, cwd and unusual bytes are far more than the sampled ones and privilege mistakes are silent.",
 ["src/fora/connectors/tunnel_dispatcher.py","src/fora/connectors/tunnel_connector.py","src/fora/connection.py"],[("process launch","src/fora/connectors/tunnel_dispatcher.py:PacketProcessRun.handle"),("defaults resolution","src/fora/connection.py:Connection.run")],observe_at=["what the executed process observes","the returned result"])
p("C09","Connections are open only inside their context and always released",
 "A host exposes an active connection exactly from successful opening until leaving the connection context, and outside of it every remote request is refused. However the context is left - normally, by an exception, by a failure while opening, or with the remote side already dead - the transport process has ended afterwards and the connection is no longer exposed; opening it again works.",
 ["histories","fault_sequences"],"every sequence of open/use/fail/close steps, with failures injected at every phase",
 "Leaks occur only when a particular opening phase or the peer fails; tests only close healthy connections.",
 ["src/fora/connection.py","src/fora/connectors/tunnel_connector.py"],[("context manager","src/fora/connection.py:Connection.__enter__/__exit__"),("transport open/close","src/fora/connectors/tunnel_connector.py:open/close")],observe_at=["host.connection","transport process liveness","exceptions"])
p("C10","Remote defaults nest, overlay and are restored on every exit path",
 "Inside a `defaults(...)` block each given setting replaces the enclosing one and every other setting keeps its enclosing value; when the block is left, normally or by an exception, exactly the enclosing settings are in effect again. A called script starts from the connection's base settings independent of the caller's blocks, its own blocks never affect the caller, explicit arguments to an operation override the defaults only for that operation, and a block whose user or group does not exist raises and changes nothing.",
 ["programs","histories"],"every nesting of defaults blocks, script calls and exceptions, and every subset of settings per block",
 "Restoration bugs need particular nestings combined with exceptions or nested scripts.",
 ["src/fora/types.py","src/fora/connection.py","src/fora/remote_settings.py","src/fora/loader.py"],[("defaults stack","src/fora/types.py:RemoteDefaultsContext, ScriptWrapper.defaults"),("overlay","src/fora/remote_settings.py:RemoteSettings.overlay"),("resolution","src/fora/connection.py:resolve_defaults, base_settings")],observe_at=["effective identity/modes of operations executed at each program point"])
p("C11","Script invocation context is set up per call and restored on every exit path",
 "While a script runs, relative paths resolve against its own directory, the current script is that script, and its declared parameters hold the values passed for that call (or their defaults; a missing required parameter is an error). After the call returns or raises, the caller's directory, current script and parameters are exactly as before, and a script that invokes itself, directly or through others, is refused unless recursion is explicitly allowed.",
 ["programs","histories"],"every tree of nested script calls with arbitrary parameters and exceptions raised and caught at any level",
 "Depends on the nesting and on where exceptions are caught; tests have one nesting level.",
 ["src/fora/loader.py","src/fora/operations/local.py","src/fora/types.py"],[("script runner","src/fora/loader.py:run_script"),("parameters","src/fora/types.py:ScriptWrapper.Params"),("recursion guard","src/fora/operations/local.py:script")],observe_at=["cwd, fora.script and parameter values at each program point"])
FO=["src/fora/operations/files.py","src/fora/operations/utils.py","src/fora/operations/api.py","src/fora/connection.py","src/fora/connectors/tunnel_dispatcher.py"]
p("C12","File operations leave the host in exactly the requested state",
 "After a directory, file, link, upload, upload-content or template operation reports success, the target path has exactly the requested presence, type, mode, owner, group, content or link target (settings not given come from the current defaults, or are left alone where the documentation says so), whatever the previous state was. No other path on the host is created, changed or removed.",
 ["inputs","histories"],"every previous state of the target (absent, file, directory, symlink to file/directory/nothing, any mode/owner/content) and every argument combination, in any sequence of operations",
 "The product of previous states and arguments is large, and wrong results are typically only visible in attributes that a test does not compare.",
 FO,[("operations","src/fora/operations/files.py"),("content upload","src/fora/operations/utils.py:save_content"),("upload","src/fora/connectors/tunnel_dispatcher.py:PacketUpload.handle")],observe_at=["host file system before/after"])
p("C13","Re-running a file operation changes nothing, and `changed` is always truthful",
 "An operation reports a change if and only if it altered the host, and the initial and final states it reports match the host's actual state before and after. Running the same operation again immediately afterwards reports no change and performs no modification (touching a file's timestamps is not counted as state).",
 ["inputs","histories"],"every previous state and argument combination of the file operations, and every sequence of them",
 "Non-convergence (e.g. mode bits that never match) only appears for particular attribute combinations.",
 FO,[("state comparison","src/fora/operations/api.py:Operation.initial_state/final_state/unchanged/success"),("operations","src/fora/operations/files.py")],observe_at=["OperationResult","host file system"])
p("C14","Dry-run never modifies the host and predicts the real run",
 "With dry-run enabled no operation modifies anything on the host, regardless of its arguments and the host's state. The outcome reported by the dry run - changed or not, initial and final state - equals that of a real run started from the same host state, whenever that real run succeeds.",
 ["inputs","histories"],"every operation, argument combination and host state (files, accounts, packages, services, commands, repositories)",
 "A forgotten dry-run guard is invisible unless the specific branch is executed in dry-run mode and the host is compared.",
 FO+["src/fora/operations/system.py","src/fora/operations/systemd.py","src/fora/operations/git.py","src/fora/operations/apt.py","src/fora/operations/pacman.py","src/fora/operations/portage.py"],[("dry-run guards","src/fora/operations/*.py (fora.args.dry)")],observe_at=["host state before/after","OperationResult"])
p("C15","Failures are always reported as failures and leave mismatching targets untouched",
 "An operation that could not do what was requested never reports success: with checking enabled (the default) it raises an error; with checking disabled, a failure the operation itself declares or raises as operation error is returned as a failed, unchanged result carrying the message instead. When an existing target has a conflicting type or the arguments are invalid, the host is left untouched; every operation that returns without having declared its outcome is reported as an error.",
 ["inputs","fault_sequences"],"every operation, checking mode, invalid argument and conflicting previous state",
 "Needs the combination of failing branch and checking mode; tests exercise only a few failing branches.",
 ["src/fora/operations/api.py","src/fora/operations/files.py","src/fora/operations/system.py"],[("operation wrapper","src/fora/operations/api.py:operation, Operation"),("type checks","src/fora/operations/files.py")],observe_at=["result/exception","host state"])
p("C16","A remote failure at any step surfaces, is contained and recoverable",
 "If any remote request issued by a file operation fails - whether or not it took effect - the operation does not report success, and no path other than its target is created, changed or removed and no temporary file is left behind; file content is always either the complete old or the complete new content. Running the same operation again without the fault reaches the requested state.",
 ["fault_sequences","crash_points"],"every file operation, previous state and index of the failing remote request, failing before or after taking effect",
 "Tests run with a healthy connection only.",
 FO+["src/fora/connectors/tunnel_connector.py"],[("operation steps","src/fora/operations/files.py"),("atomic replace","src/fora/connectors/tunnel_dispatcher.py:PacketUpload.handle")],observe_at=["result/exception","host file system"])
p("C17","Line editing changes only the requested line",
 "Ensuring a line is present leaves a file that is already containing it untouched and otherwise appends exactly that line; ensuring absence removes exactly the matching lines. All other bytes of the file, its mode, owner and group are preserved, a requested backup holds the previous content, and running the operation again reports no change (provided the line itself matches a given pattern).",
 ["inputs"],"every file content (line endings, missing final newline, empty lines, whitespace, repeated lines), line, regular expression, whitespace and backup option",
 "Text-editing corner cases are numerous and each corrupts user configuration silently.",
 ["src/fora/operations/files.py","src/fora/operations/utils.py"],[("line operation","src/fora/operations/files.py:line")],observe_at=["file content and attributes before/after","backup files"])
p("C18","User and group management reaches the requested account state and nothing else",
 "After a user or group operation succeeds, the account exists or not as requested and every explicitly requested attribute (ids, primary and supplementary groups, home, shell, password, comment) has the requested value, while attributes not given and other accounts keep their values. The reported change is truthful, and repeating the operation issues no modification.",
 ["inputs","histories"],"every previous account database and every combination of given and omitted attributes",
 "Each attribute has its own comparison and flag; combinations and falsy values are not sampled by tests.",
 ["src/fora/operations/system.py"],[("user and group operations","src/fora/operations/system.py:user, group")],observe_at=["account database seen by the host's standard tools","OperationResult"])
p("C19","Package operations install only what is missing, remove only what is present",
 "For any set of named packages, requesting presence installs exactly those not yet installed and requesting absence removes exactly those installed, leaving other packages alone; nothing is executed if nothing is missing. The result reports a change if and only if the set of installed packages changed, repeated names count once, and a failing installation or removal is reported as failure; the generic operation picks the package manager available on the host.",
 ["inputs","configurations","fault_sequences"],"every subset of installed and requested packages, per supported package manager, and a failure of any invocation",
 "No package operation is exercised by the test-suite at all.",
 ["src/fora/operations/utils.py","src/fora/operations/apt.py","src/fora/operations/pacman.py","src/fora/operations/portage.py","src/fora/operations/system.py"],[("generic package diff","src/fora/operations/utils.py:generic_package"),("package managers","src/fora/operations/{apt,pacman,portage}.py"),("selection","src/fora/operations/system.py:package")],observe_at=["package manager invocations","OperationResult"])
p("C20","Service operations reach the requested state with truthful change reports",
 "After a service operation succeeds, the unit is running/stopped and enabled/disabled as requested and whatever was not requested is unchanged; restart and daemon-reload requests are carried out. Only the necessary service-manager commands are issued, for the requested scope (system or user), a change is reported if and only if something was changed, and failing commands surface as errors.",
 ["inputs","configurations","fault_sequences"],"every previous unit state, every combination of requested settings and scope, and a failure of any invocation",
 "No service operation is exercised by the test-suite.",
 ["src/fora/operations/systemd.py","src/fora/operations/system.py","src/fora/operations/api.py"],[("service operation","src/fora/operations/systemd.py:service, daemon_reload")],observe_at=["service manager invocations","OperationResult"])
p("C21","Templates and lookups use the documented variable precedence",
 "A name used in a template or looked up on the host resolves to the explicitly passed context value, else the host's variable, else the running script's exported variable; `host` and `inventory` in templates always denote the current host and inventory. Private names, imported modules and script-internal names are never taken from scripts, and using an undefined name fails without writing anything.",
 ["inputs","configurations"],"every assignment of names to the context, host and script levels, and every nesting of scripts",
 "Precedence faults only show when the same name exists on several levels.",
 ["src/fora/types.py","src/fora/operations/files.py"],[("hierarchical lookup","src/fora/types.py:HostWrapper.vars_hierarchical/__getattr__"),("template rendering","src/fora/operations/files.py:template_content")],observe_at=["rendered content","attribute lookups"])
p("C22","Uploading a directory mirrors the tree and touches nothing else",
 "Uploading a local directory leaves every contained directory and file at the corresponding remote location with identical content and the requested ownership and modes, placed inside the destination or at it according to the trailing-slash rule. Links count as the file they refer to; dangling links and special files are not uploaded. Remote files that do not correspond to uploaded entries are left untouched, and repeating the upload reports no change and modifies nothing.",
 ["inputs","histories"],"every local tree, previous remote tree and destination spelling",
 "Depends on tree shapes (empty directories, nesting, pre-existing entries) and path spelling.",
 ["src/fora/operations/files.py"],[("recursive upload","src/fora/operations/files.py:upload_dir")],observe_at=["remote tree before/after","OperationResult"])
p("C23","Repository checkouts follow the requested reference, never damage other data",
 "After a repository operation succeeds the target holds a checkout of the requested repository at the requested branch or tag's current commit, on that branch if it had to be changed for one; submodules are left alone unless they are requested, and then they are (recursively, if so requested) at the commits it records, even if an earlier attempt failed. With updates disabled an existing checkout is left as is. A target that is not a checkout of the requested repository is never overwritten, the reported commits and change flag are truthful, and repeating the operation changes nothing.",
 ["inputs","histories"],"every history of upstream commits, branches, tags and submodules interleaved with operations and failing commands, and every previous target state",
 "The outcome depends on interleavings of upstream history and previous checkouts; the single test for it cannot run offline.",
 ["src/fora/operations/git.py"],[("repository operation","src/fora/operations/git.py:repo")],observe_at=["target checkout","OperationResult"])
p("C24","Host urls always resolve to the intended connector, target and host name",
 "A host given without a scheme is contacted by ssh, an explicit scheme selects the matching connector, and an unknown or missing scheme is an error before anything is started. User, host and port (including bracketed IPv6 literals) given in a url are passed on unchanged and separately, and the default host name is exactly the host part of the url.",
 ["inputs"],"every combination of scheme spelling, user, host form and port",
 "Url parsing has many forms; only two are tested.",
 ["src/fora/connectors/ssh.py","src/fora/connectors/connector.py","src/fora/connectors/local.py","src/fora/inventory_wrapper.py","src/fora/types.py"],[("url handling","src/fora/connectors/ssh.py"),("connector selection","src/fora/types.py:HostWrapper.create_connector")],observe_at=["transport command line","loaded host names"])
p("C25","Inspecting an inventory shows exactly what its hosts would get, and from where",
 "`fora --inspect-inventory` lists all groups in an order compatible with their relations, all hosts with their urls, the inventory's variables, and for every host each variable it would have when a script runs, with its true value and type. As origin it names the module that last defined the variable followed by those that modified it since, in order, each with its place in the precedence. Private names and imported modules are not shown, an invalid inventory ends with an error instead of a listing of hosts, and no color codes are printed if disabled by NO_COLOR, by --no-color, or because the output is not a terminal.",
 ["inputs","configurations"],"every inventory: group relations, memberships, variables defined, redefined and modified by any module",
 "The listing is never tested; a wrong origin only shows for particular chains of definitions and modifications.",
 ["src/fora/main.py","src/fora/inventory_wrapper.py","src/fora/types.py","src/fora/utils.py"],[("inspection","src/fora/main.py:show_inventory"),("history of changes to variables","src/fora/inventory_wrapper.py:instanciate_host")],observe_at=["standard output and exit status of --inspect-inventory"])
p("C26","Reports show exactly what changes; output options never alter what is done",
 "The report of an operation has its title, description and name, the failure message if it failed, and otherwise every state entry that changes, once, with its true old and new value (shortened only without -v), and no other entries (with -v the unchanged ones, too). With --diff it shows for every file whose content changes whether it is created, modified or deleted and a difference which leads from exactly the old to exactly the new content, for any bytes; non-printable characters are escaped. With --no-changes nothing but title and failure are shown, and no color codes are printed to standard output if disabled by --no-color, NO_COLOR or because it is not a terminal. Whichever of -v, --diff, --no-changes, --debug and --no-color are given, operations have the same effect and result, and --dry, --dry-run and --pretend leave files as they are while the report is that of the real run.",
 ["inputs","configurations"],"every old and new content, state, description and combination of output options",
 "Reports are what users decide upon after a dry run; tests never read them, and a wrong difference or a lost entry only shows for particular contents and options.",
 ["src/fora/logger.py","src/fora/operations/api.py","src/fora/main.py","src/fora/operations/utils.py"],[("reports","src/fora/logger.py:print_operation"),("differences","src/fora/logger.py:diff"),("options","src/fora/main.py:main")],observe_at=["standard output","files in a scratch directory"])
p("C27","--init creates exactly the layout, overwrites only with consent, and it works",
 "`fora --init LAYOUT` in an empty directory creates exactly the directories and files of that layout. In any other directory it asks, and unless the answer is yes, it changes nothing and exits with an error; an unknown layout is an error, too. With consent, existing files of the layout are replaced by exactly what an empty directory would get, everything else in the directory stays as it is, and if the layout cannot be completed this is not reported as success. The deploy that is created can be used at once: its inventories have the hosts and variables they declare, and running it deploys everything it contains (on hosts that have what it requires), or nothing with --dry.",
 ["inputs","configurations"],"every layout, content of the current directory, answer, inventory of the layout, dry or real run",
 "The layouts are never executed by a test; a broken example or a lost file of the user only shows for one layout and one content of the directory.",
 ["src/fora/example_deploys.py","src/fora/main.py"],[("creating a layout","src/fora/example_deploys.py:init_deploy_structure"),("option --init","src/fora/main.py:main")],observe_at=["exit status","contents of the current directory","state of simulated hosts"])
p("C28","A failing run reports what failed, where in the scripts, and each output once",
 "A run that is ended by a failure exits with an error and reports, as the last thing, the failure that ended it: its type and message, the script and line it originates from (the call of the operation, if an operation failed), and the calls of the scripts that were active there, in order and with file, line and function. This is so for any nesting of scripts and functions, and also if failures were caught, raised again or replaced on the way; failures that were handled are not reported, and do not affect the exit status, working directory or structure of the report. The output of a failed process is shown exactly once, with its exit status and bytes escaped, as soon as it leaves an operation or script. Titles of scripts and operations are shown in the order of execution, indented by their nesting.",
 ["inputs","histories"],"every program of nested scripts, functions, failures (in scripts, operations and processes) and handlers",
 "Users locate errors in their deploys by this; tests only run scripts that succeed or look at the raised exception.",
 ["src/fora/loader.py","src/fora/utils.py","src/fora/operations/api.py","src/fora/logger.py","src/fora/main.py"],[("script stack","src/fora/loader.py:run_script"),("exception hook","src/fora/utils.py:print_exception"),("traceback of operations","src/fora/operations/api.py:operation")],observe_at=["standard error","standard output","exit status"])
p("C29","What an inventory replaces is used for all its hosts, everywhere, nothing else",
 "An inventory may replace how urls are qualified, how host names are derived from them, which module file belongs to a group or host (or none), the base directory, the directories of group and host modules, the available groups, and the settings connections start with. What it replaces is used for every host and group of the inventory, the defaults for everything else: host names and urls, the modules that are executed (in order, for the right host or group) and the settings in effect for commands and files. A replacement that raises ValueError, results in duplicate or no names, or leads to an explicitly requested module that does not exist makes the inventory invalid before any connection. The functions themselves are not variables of hosts, and settings returned by the inventory are not modified. The user and group settings always are those of the connection. If modules set a url or connector, the last one that does decides how the host is reached; a host that cannot be resolved to a connector is reported as fatal error without connecting.",
 ["inputs","configurations"],"every combination of replaced functions, declared hosts and groups, and existing module files",
 "No test replaces any of these functions; a default used in one place only shows for particular combinations.",
 ["src/fora/inventory_wrapper.py","src/fora/types.py","src/fora/loader.py","src/fora/connection.py"],[("replaceable functions","src/fora/inventory_wrapper.py:InventoryWrapper"),("lookup","src/fora/types.py:ModuleWrapper"),("base settings","src/fora/connection.py:Connection")],observe_at=["loaded hosts","executed modules","settings and urls connectors are given"])
json_lines="\n".join(json.dumps(d) for d in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
