"""Reference resolution, transcribed from RFC 3986, section 5.2 and appendix B."""

import re

PARTS = re.compile(r"^(([A-Za-z][A-Za-z0-9+.-]*):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?", re.DOTALL)


def split(reference):
    m = PARTS.match(reference)
    return m.group(2), m.group(4), m.group(5), m.group(7), m.group(9)


def remove_dot_segments(path):
    output = []
    while path:
        if path.startswith("../"):
            path = path[3:]
        elif path.startswith("./"):
            path = path[2:]
        elif path.startswith("/./"):
            path = path[2:]
        elif path == "/.":
            path = "/"
        elif path.startswith("/../"):
            path = path[3:]
            if output:
                output.pop()
        elif path == "/..":
            path = "/"
            if output:
                output.pop()
        elif path in (".", ".."):
            path = ""
        else:
            end = path.find("/", 1)
            if end < 0:
                end = len(path)
            output.append(path[:end])
            path = path[end:]
    return "".join(output)


def resolve(base, reference):
    r_scheme, r_authority, r_path, r_query, r_fragment = split(reference)
    b_scheme, b_authority, b_path, b_query, _ = split(base)
    if r_scheme is not None:
        scheme, authority = r_scheme, r_authority
        path, query = remove_dot_segments(r_path), r_query
    else:
        scheme = b_scheme
        if r_authority is not None:
            authority = r_authority
            path, query = remove_dot_segments(r_path), r_query
        else:
            authority = b_authority
            if r_path == "":
                path = b_path
                query = r_query if r_query is not None else b_query
            else:
                if r_path.startswith("/"):
                    path = remove_dot_segments(r_path)
                else:
                    if b_authority is not None and b_path == "":
                        merged = "/" + r_path
                    else:
                        merged = b_path[: b_path.rfind("/") + 1] + r_path
                    path = remove_dot_segments(merged)
                query = r_query
    result = ""
    if scheme is not None:
        result += scheme + ":"
    if authority is not None:
        result += "//" + authority
    result += path
    if query is not None:
        result += "?" + query
    if r_fragment is not None:
        result += "#" + r_fragment
    return result


def absolute(base, reference):
    """What a reference in a document stands for: only relative ones are subject
    to resolution, others stay as they are, dot segments and all."""
    if not base or split(reference)[0] is not None:
        return reference
    return resolve(base, reference)
