import json
TECH="contract-based deductive verification (Verus) of the crate's own functions, extracted on every run"
NOTE={
'C01':"implicit obligations (overflow, bounds, unwrap, callee preconditions, termination) of every function in the crate for every byte string below 2 GiB; assumes the contracts of std and of the quake_* crates in contracts/shim.rs, and that memory suffices",
'C02':"frame chain contracts of the reader functions against a recursive spec of the format; assumes the std slice contracts",
'C03':"decoder functions against byte-exact spec functions; assumes the bstr/std cursor contracts",
'C04':"print log equals its recursive spec function; assumes quake_text only where texts are compared as bytes (not at all here)",
'C05':"score map equals the fold of obituary effects; assumes std HashMap entry contract and quake_text as an uninterpreted decoding",
'C06':"classification and attribution of the real matcher against phrase tables written in the specification; the decoding of bytes to text is uninterpreted",
'C07':"team killer search against its spec",
'C08':"flag counters against the fold over announcements",
'C09':"ping map against sums and counts of the first eight runs",
'C10':"client list against the spec of marker walk; the decoding of one client string (quake_clientinfo) is assumed",
'C11':"list functions against filters of the client list; assumes the sort of quake_text is a sort of the same names",
'C12':"player lists against the spec; comparator proved to be a total preorder, stable sort assumed from std",
'C13':"grouping, totals, rounding and colour vote against the spec",
'C14':"durations against sums of frame times; conversions of chrono/std durations assumed",
'C15':"block walk against its recursive spec; JSON decoding (ktxstats) assumed to be a function of the text",
'C16':"settings window and delimiters against the spec; parsing of settings (quake_serverinfo) assumed",
'C17':"date text window, zone table and offset conversion against the spec; chrono's parser assumed",
'C18':"each condition as an exact equation over the bytes",
'C19':"source preference as equations over the sources' specs",
'C20':"results equal functions of the data under hash maps whose iteration order is left arbitrary",
}
checks=[dict(property=p,quick_cmd=f"python3 check.py {p}",thorough_cmd=f"python3 check.py {p}",evidence_file=f"evidence/{p}.json",technique=TECH,level="proof",level_note=n) for p,n in NOTE.items()]
m=dict(version=1,setup_cmd="python3 check.py --setup",checks=checks,not_applicable=[],
 notes="No hooks in /repo: the verified text is extracted from the unchanged sources on every run and the replay program uses the public API. A failed obligation is replayed on the real code (replay/); what the verifier cannot decide is only tried on inputs and never counted as discharged.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
