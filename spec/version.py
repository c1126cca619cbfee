"""Specification of gcs/_version.py (parsed by the checker, never executed)."""
MODULE = 'gcs._version'


@spec('plus_or_dot', mode='inline')
def plus_or_dot(pieces: any):
    return "." if "+" in pieces.get("closest-tag", "") else "+"


# TAG[+DISTANCE.gHEX[.dirty]], or 0+untagged.DISTANCE.gHEX[.dirty]
@spec('render_pep440')
def render_pep440(pieces: any):
    where = "%d.g%s" % (pieces["distance"], pieces["short"]) + (
        ".dirty" if pieces["dirty"] else "")
    if not pieces["closest-tag"]:
        return "0+untagged." + where
    if pieces["distance"] or pieces["dirty"]:
        return pieces["closest-tag"] + plus_or_dot(pieces) + where
    return pieces["closest-tag"]


# TAG[.post.devDISTANCE], or 0.post.devDISTANCE
@spec('render_pep440_pre')
def render_pep440_pre(pieces: any):
    if not pieces["closest-tag"]:
        return "0.post.dev%d" % pieces["distance"]
    if pieces["distance"]:
        return pieces["closest-tag"] + ".post.dev%d" % pieces["distance"]
    return pieces["closest-tag"]


# TAG[.postDISTANCE[.dev0]+gHEX], or 0.postDISTANCE[.dev0]+gHEX
@spec('render_pep440_post')
def render_pep440_post(pieces: any):
    post = ".post%d" % pieces["distance"] + (".dev0" if pieces["dirty"] else "")
    if not pieces["closest-tag"]:
        return "0" + post + "+g%s" % pieces["short"]
    if pieces["distance"] or pieces["dirty"]:
        return pieces["closest-tag"] + post + plus_or_dot(pieces) + "g%s" % pieces["short"]
    return pieces["closest-tag"]


# TAG[.postDISTANCE[.dev0]], or 0.postDISTANCE[.dev0]
@spec('render_pep440_old')
def render_pep440_old(pieces: any):
    post = ".post%d" % pieces["distance"] + (".dev0" if pieces["dirty"] else "")
    if not pieces["closest-tag"]:
        return "0" + post
    if pieces["distance"] or pieces["dirty"]:
        return pieces["closest-tag"] + post
    return pieces["closest-tag"]


# TAG[-DISTANCE-gHEX][-dirty], or HEX[-dirty]
@spec('render_git_describe')
def render_git_describe(pieces: any):
    dirty = "-dirty" if pieces["dirty"] else ""
    if not pieces["closest-tag"]:
        return pieces["short"] + dirty
    if pieces["distance"]:
        return pieces["closest-tag"] + "-%d-g%s" % (pieces["distance"], pieces["short"]) + dirty
    return pieces["closest-tag"] + dirty


# TAG-DISTANCE-gHEX[-dirty], or HEX[-dirty]
@spec('render_git_describe_long')
def render_git_describe_long(pieces: any):
    dirty = "-dirty" if pieces["dirty"] else ""
    if not pieces["closest-tag"]:
        return pieces["short"] + dirty
    return pieces["closest-tag"] + "-%d-g%s" % (pieces["distance"], pieces["short"]) + dirty


@spec('render')
def render(pieces: any, style: any):
    if pieces["error"]:
        return {"version": "unknown", "full-revisionid": pieces.get("long"), "dirty": None,
                "error": pieces["error"], "date": None}
    if not style or style == "default" or style == "pep440":
        text = render_pep440(pieces)
    elif style == "pep440-pre":
        text = render_pep440_pre(pieces)
    elif style == "pep440-post":
        text = render_pep440_post(pieces)
    elif style == "pep440-old":
        text = render_pep440_old(pieces)
    elif style == "git-describe":
        text = render_git_describe(pieces)
    elif style == "git-describe-long":
        text = render_git_describe_long(pieces)
    else:
        raise ValueError
    return {"version": text, "full-revisionid": pieces["long"], "dirty": pieces["dirty"],
            "error": None, "date": pieces.get("date")}


# ------------------------------------------------------------------ version lookup

@spec('versions_from_parentdir')
def versions_from_parentdir(parentdir_prefix: any, root: any, verbose: any):
    assume(not verbose)
    for i in range(3):
        name = os.path.basename(root)
        if name.startswith(parentdir_prefix):
            return {"version": name[len(parentdir_prefix):], "full-revisionid": None,
                    "dirty": False, "error": None, "date": None}
        root = os.path.dirname(root)
    raise NotThisMethod


@spec('git_versions_from_keywords')
def git_versions_from_keywords(keywords: any, tag_prefix: any, verbose: any):
    assume(not verbose)
    if not keywords:
        raise NotThisMethod
    date = keywords.get("date")
    if date is not None:
        date = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
    names = keywords["refnames"].strip()
    if names.startswith("$Format"):
        raise NotThisMethod
    refs = set([r.strip() for r in names.strip("()").split(",")])
    tags = set([r[len("tag: "):] for r in refs if r.startswith("tag: ")])
    if not tags:
        tags = set([r for r in refs if re.search(r'\d', r)])
    for ref in sorted(tags):
        if ref.startswith(tag_prefix):
            return {"version": ref[len(tag_prefix):],
                    "full-revisionid": keywords["full"].strip(),
                    "dirty": False, "error": None, "date": date}
    return {"version": "0+unknown", "full-revisionid": keywords["full"].strip(),
            "dirty": False, "error": "no suitable tags", "date": None}


@spec('git_pieces_from_vcs')
def git_pieces_from_vcs(tag_prefix: any, root: any, verbose: any, run_command: any):
    assume(not verbose)
    gits = ["git"]
    if sys.platform == "win32":
        gits = ["git.cmd", "git.exe"]
    out, rc = run_command(gits, ["rev-parse", "--git-dir"], cwd=root, hide_stderr=True)
    # run_command gives no output exactly when the command failed or could not be started
    assume((rc == 0) == (out is not None))
    assume(bool(rc) == (rc is not None and out is None))
    described, later = run_command(
        gits, ["describe", "--tags", "--dirty", "--always", "--long", "--match",
               "%s*" % tag_prefix], cwd=root)
    # what could not be started once cannot be started the next time either
    assert not (rc is None and described is not None)
    if rc != 0:
        raise NotThisMethod
    rc = later
    assume((rc == 0) == (described is not None))
    assume(bool(rc) == (rc is not None and described is None))
    if described is None:
        raise NotThisMethod
    described = described.strip()
    full, rc = run_command(gits, ["rev-parse", "HEAD"], cwd=root)
    assume((rc == 0) == (full is not None))
    assume(bool(rc) == (rc is not None and full is None))
    if full is None:
        raise NotThisMethod
    full = full.strip()
    dirty = described.endswith("-dirty")
    plain = described[:described.rindex("-dirty")] if dirty else described
    pieces = {"long": full, "short": full[:7], "error": None, "dirty": dirty}
    if "-" in plain:
        mo = re.search(r'^(.+)-(\d+)-g([0-9a-f]+)$', plain)
        if not mo:
            pieces["error"] = "unable to parse git-describe output: '%s'" % described
            return pieces
        tag = mo.group(1)
        if not tag.startswith(tag_prefix):
            pieces["error"] = "tag '%s' doesn't start with prefix '%s'" % (tag, tag_prefix)
            return pieces
        pieces["closest-tag"] = tag[len(tag_prefix):]
        pieces["distance"] = int(mo.group(2))
        pieces["short"] = mo.group(3)
    else:
        pieces["closest-tag"] = None
        count, rc = run_command(gits, ["rev-list", "HEAD", "--count"], cwd=root)
        assume((rc == 0) == (count is not None))
        assume(bool(rc) == (rc is not None and count is None))
        if count is None:
            raise NotThisMethod
        pieces["distance"] = int(count)
    date, rc = run_command(gits, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
    assume((rc == 0) == (date is not None))
    assume(bool(rc) == (rc is not None and date is None))
    if date is None:
        raise NotThisMethod
    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
    return pieces


@spec('get_config')
def get_config():
    cfg = VersioneerConfig()
    cfg.VCS = "git"
    cfg.style = "pep440"
    cfg.tag_prefix = "v"
    cfg.parentdir_prefix = ""
    cfg.versionfile_source = "gcs/_version.py"
    cfg.verbose = False
    return cfg


@spec('get_versions')
def get_versions():
    cfg = get_config()
    verbose = cfg.verbose
    try:
        return git_versions_from_keywords(get_keywords(), cfg.tag_prefix, verbose)
    except NotThisMethod:
        pass
    try:
        root = os.path.realpath(__file__)
        for i in cfg.versionfile_source.split('/'):
            root = os.path.dirname(root)
    except NameError:
        return {"version": "0+unknown", "full-revisionid": None, "dirty": None,
                "error": "unable to find root of source tree", "date": None}
    try:
        return render(git_pieces_from_vcs(cfg.tag_prefix, root, verbose), cfg.style)
    except NotThisMethod:
        pass
    try:
        if cfg.parentdir_prefix:
            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)
    except NotThisMethod:
        pass
    return {"version": "0+unknown", "full-revisionid": None, "dirty": None,
            "error": "unable to compute version", "date": None}


@spec('run_command')
def run_command(commands: any, args: any, cwd: any = None, verbose: any = False,
                hide_stderr: any = False, env: any = None):
    assume(not verbose)
    assert isinstance(commands, list)
    p = None
    for c in commands:
        try:
            p = subprocess.Popen([c] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                                 stderr=(subprocess.PIPE if hide_stderr else None))
            break
        except EnvironmentError:
            e = sys.exc_info()[1]
            if e.errno == errno.ENOENT:
                continue
            return None, None
    else:
        return None, None
    stdout = p.communicate()[0].strip()
    if sys.version_info[0] >= 3:
        stdout = stdout.decode()
    if p.returncode != 0:
        return None, p.returncode
    return stdout, p.returncode


@spec('get_keywords')
def get_keywords():
    # replaced by git in the archives it makes
    return {"refnames": "$Format:%d$", "full": "$Format:%H$", "date": "$Format:%ci$"}
