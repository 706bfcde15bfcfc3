"""Directories in which a layout is created. Inputs only."""
LAYOUTS = ["minimal", "flat", "dotfiles", "modular", "staging_prod"]
NAMES = ["deploy.py", "inventory.py", "hosts", "hosts/localhost.py", "hosts/mine.py", "groups", "groups/all.py", "tasks", "tasks/example_task", "tasks/example_task/files", "tasks/example_task/install.py", "tasks/example_task/own.py", "templates", "files",
         "files/staticfile", "inventories", "inventories/prod.py", "inventories/hosts", "README", ".git", ".git/config", ".hidden", "notes.txt", "a dir", "a dir/b", "x.link", "zsh", "zsh/zshrc"]
DIRS = {"hosts", "groups", "tasks", "tasks/example_task", "tasks/example_task/files", "templates", "files", "inventories", "inventories/hosts", ".git", "a dir", "zsh"}
def scaf_cases(rng, n):
    res = []
    for _ in range(n):
        layout = rng.choice(LAYOUTS * 6 + ["minimal ", "Flat", "nope", ""])
        pre = []
        if rng.random() < 0.7:
            odd = rng.random() < 0.2
            have = set()
            for x in sorted(rng.sample(NAMES, rng.choice([1, 1, 2, 4, 8, 14]))):
                parent = x.rpartition("/")[0]
                if parent and parent not in have: continue
                isdir = (x in DIRS) != (odd and rng.random() < 0.3)
                if isdir: have.add(x)
                pre.append(dict(path=x, kind="dir" if isdir else "link" if x == "x.link" else "file", data=rng.choice([f"mine {x}\n", "", f"# mine {x}\n" * 400])))
        inv = {"dotfiles": "local:x", "staging_prod": rng.choice(["inventories/staging.py", "inventories/prod.py"])}.get(layout, "inventory.py")
        res.append(dict(layout=layout, pre=pre, answer=rng.choice(["y", "Y", "yes", "YES", "Yes", "y", "yes", "n", "N", "", "no", "yep", "j", "1", "true", "EOF"]), inv=inv, dry=rng.random() < 0.3))
    return res
