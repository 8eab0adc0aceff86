#!/usr/bin/env python3
"""Writes known-findings.json (run by hand; no check runs it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 ("C11","denied-without-status","an auth answer with denied_response but without status (Envoy: 403) fails the action instead of denying it: 500 with failureMode deny, and with failureMode allow the denied request is let through (legacy_translation.rs build_auth_on_reply reads denied_response.status.code of an absent status)"),
 ("C16","surrogate-key","a store action does not find a field of a JSON body when a key on its way is written with escaped surrogate pairs ({\"\\ud83d\\ude00\": 1} read with /😀): the acutejson dependency does not match such keys (calls, which parse the whole body, do find it)"),
]
FIXED = [
 ("C04","9353f47","work that an action postponed (waiting for the response or a stored value, or ordered by an answer) escaped the service's failure mode when it failed later"),
 ("C05","b3574b2","deny, headers, store and fail actions ignored the actions they are ordered after"),
 ("C02","fec4b24","after a denial, a wrapped non-guard call was treated as a guard and the local reply stayed held"),
 ("C02","8605687","the end of a response was held although no call was outstanding, and never released"),
 ("C05","e13627c","actions ordered after a stand-alone action that failed were skipped for ever"),
 ("C24","f7ebdc3","denied requests were also counted as allowed when the local reply came back through the filter"),
 ("C16","54d3192","body bytes were read twice (held response) or skipped (streamed chunks) so that fields were not found or wrong"),
 ("C16","cd0c1e7","strings of a JSON body became numbers, booleans or null, and escapes were left undecoded"),
 ("C17","bf2c12c","a character split across two chunks of an event stream made the whole chunk disappear"),
 ("C08","7e49075","a conditional expression as a predicate of conditionalData swallowed the predicates of the following blocks"),
 ("C08","a93b2b4","integers that do not fit a 32-bit field were truncated: hits_addend of 4294967301 was sent as 5"),
 ("C12","350b107","a map key of the wrong type (a boolean or string key for another key type) crashed the filter instead of failing the action"),
 ("C15","f5bee55","indexOf and lastIndexOf gave byte offsets (unusable with charAt and substring, a crash when the start lay within a character), as unsigned integers that cannot be added to integers; lastIndexOf with a position searched after it"),
 ("C14","9a5cb46","source.remote_address of every IPv6 client was '['"),
 ("C14","8b6021a","the connection attributes could not be used in expressions: undeclared reference"),
 ("C14","5d1d6b6","{'a': request.host}.a read the attribute request.host.a: fields of literals, calls and comprehensions leaked into the paths of attributes inside them"),
 ("C18","5410417","a service without failureMode was treated as failureMode allow although deny is the documented default"),
]
FIXED += [
 ("C06","50b2380","the status of a denial was cut to its lower 32 bits (4294967496u was answered 200)"),
]
FIXED += [
 ("C16","d597bf3","fields were not found in a JSON body with line breaks or tabs inside containers that hold no such field"),
 ("C16","f16aea6","a store action that uses fields of both bodies never read the response body"),
 ("C16","600bea4","a call that uses requestBodyJSON was never made: nothing read the request body for it"),
 ("C06","494c872","an action that waits for a body field and for another value failed once the body was over, although the other value was still to come"),
 ("C16","26484e2","a request without a body left the actions that read its body pending until the end instead of failing them"),
 ("C16","3428bdb","a body that ends with trailers never ended for the actions that read it"),
 ("C16","b020bc4","stand-alone deny, headers and fail actions that use fields of a body never got them: nothing read the body for them, a deny on a request body never denied"),
 ("C16","391cfce","actions of a reply that came while the body went by failed or stored a wrong value: a store action read the rest of the body as if it were the whole, others were evaluated before the fields were read"),
 ("C16","e7c7157","a store action that waits for other actions missed the part of the body that went by in the meantime"),
]
FIXED += [
 ("C20","7efd395","the services of a configuration that was refused were asked for from the descriptor service at every later load and tick"),
 ("C02","41088c5","the end of a response held for several outstanding calls was let through with the first answer, so that calls made by it (a rate limit report) were cut off"),
 ("C06","500e7ff","a stand-alone denial whose denyWith needs a value that another action will store, or a field of a body, was dropped without a reply"),
 ("C10","cb1e366","requestData over auth or the response body was recognised by its text: written with white space it held the auth call back for ever, and a literal mentioning it was left out"),
    ("C20","4b8ca16","a service whose descriptors were not known when a request began could not be called later in that request, and services of different clusters shared one set of message types"),
 ("C21","8765bd3","a header set under a name not in lower case was added beside the existing one instead of replacing it (a client's own x-user stayed beside the X-User set by an auth answer)"),
 ("C23","bc0ace8","a quote or backslash in the request id or in httpHeaderIdentifier crashed the filter or changed what header was set"),
 ("C23","015d414","calls made while another request was waiting were traced as part of that other request"),
 ("C23","4d38007","with tracing configured at a level that leaves the request's span out, calls lost traceparent, tracestate and baggage"),
]
FIXED += [
 ("C25","e5d12f4","spans were recorded while no configuration asked for traces, and exported once one did"),
 ("C25","40a8451","a refused configuration changed whether and at which level requests are traced"),
 ("C25","4b86037","at log level debug, calls lost the request's trace: the innermost span is seen by the log only and has no trace context"),
 ("C25","3a04880","a refused configuration of a new root context changed which requests are traced, and at which level"),
]
json.dump({"findings": [dict(property=p, signature=s, what=w) for p, s, w in FINDINGS],
           "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(HERE, "known-findings.json"), "w"), indent=1)
