"""Which function decides which property."""
import api_checks as api
import callable_checks as calls
import core_checks as core
import doc_checks as docs
import frame_checks as frames
import key_checks
import live_checks as live
import object_checks
import race_checks
import tree_checks
import yaml_checks as yml

CHECKS = {
    "C01": core.soundness,
    "C02": core.exactness,
    "C03": core.specified,
    "C04": core.merging,
    "C05": core.scanning,
    "C06": core.formed,
    "C07": core.layout,
    "C08": core.determinism,
    "C09": core.unordered,
    "C10": core.purity,
    "C11": live.history,
    "C12": live.validation,
    "C13": live.crashes,
    "C14": yml.transparency,
    "C15": yml.comments,
    "C16": docs.documentation,
    "C17": api.files,
    "C18": api.requests,
    "C19": calls.callables,
    "C20": frames.tables,
    "C21": object_checks.objects,
    "C22": key_checks.keys,
    "C23": race_checks.races,
    "C24": tree_checks.trees,
}
