------------------------------ MODULE ScafDefs ------------------------------
(* The layouts which --init creates, and what their example deploys do.       *)
EXTENDS Integers, Sequences, FiniteSets
Layouts == {"minimal", "flat", "dotfiles", "modular", "staging_prod"}
Files(l) ==
  CASE l = "minimal" -> {"hosts/localhost.py", "inventory.py", "deploy.py"}
    [] l = "flat" -> {"hosts/localhost.py", "groups/all.py", "inventory.py", "tasks/example_task.py", "tasks/example_params.py", "deploy.py", "templates/template.j2", "files/staticfile"}
    [] l = "dotfiles" -> {"deploy.py"}
    [] l = "modular" -> {"hosts/localhost.py", "groups/all.py", "inventory.py", "tasks/example_task/install.py", "tasks/example_task/add_site.py", "tasks/example_task/templates/site.j2", "deploy.py"}
    [] l = "staging_prod" -> {"inventories/hosts/example.py", "inventories/groups/all.py", "inventories/staging.py", "inventories/prod.py", "tasks/example_task/install.py", "tasks/example_task/add_site.py", "tasks/example_task/templates/site.j2", "deploy.py"}
    [] OTHER -> {}
Dirs(l) ==
  CASE l = "minimal" -> {"hosts"}
    [] l = "flat" -> {"hosts", "groups", "tasks", "files", "templates"}
    [] l = "modular" -> {"hosts", "groups", "tasks", "tasks/example_task", "tasks/example_task/files", "tasks/example_task/templates"}
    [] l = "staging_prod" -> {"inventories", "inventories/hosts", "inventories/groups", "tasks", "tasks/example_task", "tasks/example_task/files", "tasks/example_task/templates"}
    [] OTHER -> {}
\* only these answers mean that existing files may be overwritten
Consents(a) == a \in {"y", "Y", "yes", "YES", "Yes", "yEs"}

Local == [name |-> "localhost", url |-> "local:", some |-> "this was defined by the host", domain |-> "~"]
Remote(n) == [name |-> n, url |-> "ssh://" \o n, some |-> "defined fallback in 'all' group", domain |-> "example.com"]
\* the hosts a deploy runs on, in order
Hosts(l, inv) ==
  CASE l = "dotfiles" -> <<[name |-> "x", url |-> "local:x", some |-> "~", domain |-> "~"]>>
    [] inv = "inventories/staging.py" -> <<Remote("staging1.example.com"), Remote("staging2.example.com")>>
    [] inv = "inventories/prod.py" -> <<Remote("prod1.example.com"), Remote("prod2.example.com"), Remote("prod3.example.com"), Remote("prod4.example.com")>>
    [] OTHER -> <<Local>>
\* the files that are on a host afterwards, with something they have to contain
Deployed(l) ==
  CASE l = "minimal" -> {<<"/tmp/hello_world", "this was defined by the host">>}
    [] l = "flat" -> {<<"/tmp/hello_world", "static content">>, <<"/tmp/paramtest.txt", "This file is managed by fora.">>, <<"/tmp/paramtest.txt", "this is a fallback value defined in a script">>}
    [] l = "dotfiles" -> {<<"/root/.zshrc", "own:zsh/zshrc">>, <<"/root/.config/kitty/kitty.conf", "own:kitty/kitty.conf">>, <<"/root/.config/nvim/init.lua", "own:neovim/init.lua">>}
    [] OTHER -> {<<"/etc/nginx/sites/site1", "This file is managed by fora.">>, <<"/etc/nginx/sites/site2", "This file is managed by fora.">>, <<"/etc/nginx/sites.conf", "sites/site1">>, <<"/etc/nginx/sites.conf", "sites/site2">>}
Service(l) == l \in {"modular", "staging_prod"}
=============================================================================
