#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json (the data is here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None,
         note=None, na=None, level='other', state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files.split(), mech=mech,
                  technique=technique, note=note, na=na, level=level,
                  state=state))


AI = ('abstract interpretation of the Python source (guarded dataflow; path '
      'conditions as BDDs over input predicates)')

prop('C01', 'Checking never raises',
     'Whatever request, response or exchange is given to the library, '
     'checking it completes: malformed targets, headers, bodies, encodings '
     'and absurdly large, deep or inconsistent values lead to notices or are '
     'ignored, and never to an exception.',
     ['inputs'],
     'For every request, response and sequence of responses made of strings '
     'and bytes (including ones no parser would produce), check_exchange() '
     'returns normally.',
     'The tests check some 300 sample exchanges; an exception needs one value '
     'reaching one library call (a date overflow, an unbalanced bracket in a '
     'URL, 5000 digits) and the space of values is unbounded.',
     'httpolice/exchange.py httpolice/request.py httpolice/response.py '
     'httpolice/message.py httpolice/header.py httpolice/structure.py '
     'httpolice/codings.py httpolice/parse.py httpolice/syntax',
     [('check_exchange', 'httpolice/exchange.py'),
      ('Unavailable / okay() sentinels', 'httpolice/structure.py'),
      ('parse() turning ParseError into a notice', 'httpolice/parse.py')],
     AI + ', exception-flow analysis with a raises-model of the library',
     'Every expression reachable from check_exchange() is interpreted on '
     'symbolic messages; each operation that may raise (None dereference, '
     'key/index errors, int(), decode(), datetime, urljoin, codecs, JSON/XML/'
     'e-mail parsers, recursion on input) must be guarded or caught. Trusts '
     'the model of library exceptions in sa/extlib.py; memory exhaustion and '
     'interrupts are out of scope.')

prop('C02', 'Every notice can be rendered with the data it is given',
     'For every notice that can be reported on any input, the catalogue has '
     'an entry for it and each placeholder of its text is filled in from '
     'something the report was actually given, of a kind that can be shown, '
     'so that producing the report never fails and never prints a blank.',
     ['inputs'],
     'For every message and every notice reported on it, in every report '
     'format.',
     'Tests render the notices their samples trigger, with the values those '
     'samples carry; a missing variable or an attribute of a value of '
     'another kind shows only on the inputs that take that path.',
     'httpolice/notices.xml httpolice/notice.py httpolice/blackboard.py '
     'httpolice/reports httpolice/message.py httpolice/request.py '
     'httpolice/response.py httpolice/syntax',
     [('complain(id, **context)', 'httpolice/blackboard.py'),
      ('Var/Ref resolution', 'httpolice/reports/common.py')],
     AI + '; obligations generated from the placeholders of notices.xml',
     'For each report event of the abstract run, every placeholder path of '
     'the notice is resolved against the abstract context.')

prop('C03', 'Inputs yield exchanges or a documented error',
     'For any bytes in any supported input (HAR, raw streams, combined '
     'files, tcpflow and tcpick directories), reading ends by yielding '
     'exchanges whose bodies and header values are strings or by raising the '
     'documented input error; no exception escapes but that and those of the '
     'operating system, and the command line tool turns them into a message '
     'and a non-zero exit.',
     ['inputs'],
     'For every file content and directory listing given to an input.',
     'Tests feed a few dozen well-chosen files; malformed JSON shapes, '
     'missing members and wrongly typed values are unbounded.',
     'httpolice/inputs httpolice/cli.py httpolice/framing1.py '
     'httpolice/stream.py',
     [('InputError', 'httpolice/inputs/common.py'),
      ('load_from_file wrappers', 'httpolice/inputs')],
     AI + ', exception-flow analysis over families of malformed files',
     'Some 1,500 HAR documents (every member that is read missing or of any '
     'other type), 180 malformed or cut streams, combined files and '
     'directory listings with odd names, all of known content; '
     'run_cli on four erroneous inputs. The rest of the symbolic paths of '
     'the framing code is covered by C01 and C12.')

prop('C04', 'The notice catalogue is complete and consistent',
     'Every notice the tool can report is in the catalogue exactly once with '
     'a title, a severity and, if given, well-formed references and '
     'variables; notices in the catalogue are ones the tool can report, and '
     'severities keep their documented order.',
     ['programs', 'inputs'],
     'For every report site in the source and every entry of the catalogue.',
     'A notice whose identifier is misspelt or whose entry is malformed is '
     'only noticed by an input that triggers it.',
     'httpolice/notices.xml httpolice/notice.py httpolice/syntax '
     'httpolice/request.py httpolice/response.py httpolice/message.py',
     [('catalogue loading', 'httpolice/notice.py'),
      ('complain() call sites', 'httpolice')],
     'whole-program query: constants reaching report sites vs. catalogue',
     'Identifiers are those flowing to complain() in the abstract run, in '
     'parse sites and in grammar actions.')

prop('C05', 'Reports are safe to display',
     'Nothing from the input can act on the terminal or the page it is shown '
     'in: text reports contain no control characters or unprintable '
     'characters from the input, HTML reports no unescaped markup from it, '
     'and each notice stays on its own line.',
     ['inputs'],
     'For every value taken from a message, file name or input that can '
     'reach a report.',
     'The tests print a couple of hostile samples; any of the many values '
     'interpolated into notices, titles and headings could be a path around '
     'the filter.',
     'httpolice/reports httpolice/util/text.py httpolice/notice.py',
     [('printable / nicely_join / format_chars', 'httpolice/util/text.py'),
      ('text report writer', 'httpolice/reports/text.py'),
      ('dominate escaping', 'httpolice/reports/html.py')],
     'taint analysis (source: message and context data; sanitiser: '
     'printable(); sink: report output)',
     'Flow of every string to the output sinks.')

prop('C06', 'Silenced notices stay silent, others do not',
     'A notice is left out of a report exactly if the user silenced its '
     'identifier in the report, or the message (or, where allowed, its '
     'request) carries the silencing header for it; no other notice '
     'disappears, errors in silencing never hide anything else, and one '
     'message cannot silence notices on unrelated messages.',
     ['inputs', 'histories'],
     'For every message, silencing header and command-line choice, and every '
     'order in which notices were reported.',
     'The tests silence a few identifiers in a few places; the guarantee is '
     'about all notices reported before and after the silencing is known.',
     'httpolice/blackboard.py httpolice/message.py httpolice/exchange.py '
     'httpolice/request.py httpolice/response.py httpolice/cli.py',
     [('silence()', 'httpolice/blackboard.py'),
      ('HTTPolice-Silence handling', 'httpolice/exchange.py')],
     AI + '; effect analysis of who writes the notice and silence sets',
     'The condition under which each identifier is silenced, and all writers '
     'of the two sets, are compared with the specification.')

prop('C07', 'Exit status and report coverage are faithful',
     'The command fails exactly if a failure threshold was asked for and '
     'some non-silenced notice is at least that severe; each notice of each '
     'exchange from every input is reported exactly once, in order, and no '
     'exchange is dropped or checked twice.',
     ['inputs', 'histories', 'configurations'],
     'For every combination of options and every sequence of exchanges.',
     'Tests try a handful of command lines; the exit status depends on all '
     'notices of all exchanges of a stream that is consumed lazily.',
     'httpolice/cli.py httpolice/exchange.py httpolice/reports '
     'httpolice/inputs/__init__.py httpolice/blackboard.py',
     [('run_cli', 'httpolice/cli.py'),
      ('report writers', 'httpolice/reports')],
     AI + '; comparison of the effects of run_cli() with a specification',
     'Loops are analysed for an arbitrary element.')

prop('C08', 'Results depend only on the exchange checked',
     'Checking the same exchange again, in any process and after any other '
     'exchanges, gives the same notices: checking changes no shared state, '
     'does not modify the message it was given beyond adding notices, and '
     'cached results are keyed by everything they depend on.',
     ['histories', 'inputs'],
     'For every sequence of exchanges checked in one process.',
     'Tests check each sample once in a fresh object; leaks between '
     'exchanges need a particular order of two of them.',
     'httpolice/parse.py httpolice/known httpolice/message.py '
     'httpolice/header.py httpolice/blackboard.py httpolice/structure.py '
     'httpolice/syntax httpolice/inputs',
     [('parse memo', 'httpolice/parse.py'),
      ('derived_property', 'httpolice/blackboard.py'),
      ('known tables', 'httpolice/known')],
     na='The property needs a may-alias analysis of every store against the '
     'state of modules and against cached results, including those behind '
     'generators, closures, slots and decorators; the engine used here '
     'models caches as transparent and replaces the parser and its memo '
     'tables by the languages they accept, so it would report nothing about '
     'the places where such leaks are likely. Leaks between exchanges '
     'through silenced notices and complaints are decided as part of C06.')

prop('C09', 'Core HTTP syntax is recognised exactly',
     'For the message syntax, semantics, conditional, range, caching and '
     'authentication headers, the request target and their parts, exactly '
     'the strings generated by the grammar of RFC 7230-7235, 3986, 5646, '
     '4647 and 7616/7617-era errata are accepted; every other string is '
     'reported as malformed.',
     ['inputs'],
     'For every string given as a header value or request target.',
     'A grammar is a statement about infinitely many strings; tests try a few '
     'per header.',
     'httpolice/syntax httpolice/parse.py httpolice/known/header_data.py '
     'httpolice/request.py httpolice/known/header.csv',
     [('parser combinators', 'httpolice/parse.py'),
      ('grammar modules', 'httpolice/syntax')],
     'formal-language equivalence of the grammar in the source and the ABNF '
     'of the RFCs (automata)',
     'The grammar objects are evaluated symbolically from the source, turned '
     'into automata and compared with automata of the transcribed ABNF: '
     'equality of languages, with a shortest witness otherwise. Comments '
     'nest to a bounded depth. Trusts the transcription in '
     'spec/grammar.abnf and that the parser recognises its grammar.')

prop('C10', 'Extension header syntax is recognised exactly',
     'For headers from extension specifications (links, preferences, '
     'forwarding, transport security, alternative services, CORS, bearer '
     'errors, content disposition, and so on), exactly the strings allowed '
     'by the defining specification are accepted, and every other is '
     'reported as malformed.',
     ['inputs'],
     'For every string given as the value of such a header or parameter.',
     'As for the core grammar; several of these headers have one or two '
     'test samples.',
     'httpolice/syntax httpolice/known/header.csv',
     [('grammar modules', 'httpolice/syntax')],
     'formal-language equivalence of the grammar in the source and the ABNF '
     'of the specifications (automata)',
     'As for C09.')

prop('C11', 'Message bodies are framed as RFC 7230 section 3.3.3 says',
     'From a byte stream, each message body is delimited by the rules of RFC '
     '7230 section 3.3.3 in their order of precedence: bodiless responses '
     'and CONNECT, then chunked coding, then other codings, then '
     'Content-Length, then the default for requests and responses; where no '
     'body length can be known, the body is marked unavailable and a notice '
     'says why.',
     ['inputs'],
     'For every message head and following bytes.',
     'The outcome depends on a product of method, status, version and three '
     'headers with malformed variants; tests pick about twenty points.',
     'httpolice/framing1.py httpolice/message.py httpolice/stream.py',
     [('_process_body / body reading', 'httpolice/framing1.py')],
     AI + ' of parse_streams over families of streams with symbolic method, '
     'status and body bytes; compared with a decision table',
     'For 243 shapes of message head, over every method and status, the '
     'computed condition for each way to delimit the body, each notice about '
     'it and for parsing to go on is compared with the table in '
     'sa/checks/c11.py. Lengths and chunk sizes are samples.')

prop('C12', 'Parsing of a broken stream stops at the right place',
     'When a message in a stream cannot be parsed or framed, what was '
     'understood before is still reported, the problem is reported once, '
     'and nothing after it is interpreted as messages; pairing of responses '
     'to requests (including interim responses, protocol switches and '
     'tunnels) never attributes a response to the wrong request.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every pair of inbound and outbound byte streams.',
     'Needs streams broken at each possible point, in both directions.',
     'httpolice/framing1.py httpolice/stream.py httpolice/inputs/streams.py',
     [('parse_streams', 'httpolice/framing1.py'),
      ('Stream', 'httpolice/stream.py')],
     AI + ' of parse_streams over families of streams broken at each point; '
     'the exchanges, messages and boxes compared with reviewed ones',
     'Each family in spec/streams.txt has symbolic methods, statuses, bytes '
     'or decoder outcomes; its whole outcome (exchanges, pairing, bodies, '
     'notices) is compared with the reviewed one. Streams of shapes that no '
     'family has are not covered.')

prop('C13', 'Rules for any message fire exactly when documented',
     'For every request and every response, each notice that applies to '
     'messages of both kinds (body framing headers, encodings, charsets, '
     'media types, header hygiene, trailers, hop-by-hop fields and so on) is '
     'reported exactly when the condition that its title, explanation and '
     'cited specification describe holds, whatever the rest of the message.',
     ['inputs'],
     'For every message, in an exchange or alone.',
     'Each rule is sampled by one or two messages that trigger it; whether it '
     'also triggers or fails to on any other combination of method, status, '
     'version and headers is not tested.',
     'httpolice/message.py httpolice/header.py httpolice/known '
     'httpolice/notices.xml',
     [('check_message', 'httpolice/message.py')],
     AI + '; equivalence of computed and specified report conditions',
     'For each notice the exact Boolean condition over all paths is computed '
     'and compared with spec/rules.txt. Trusts the specification, the '
     'library model and the theory of predicates in sa/terms.py; conditions '
     'that use a different opaque predicate for the same input are compared '
     'only on what they share.')

prop('C14', 'Rules for requests fire exactly when documented',
     'For every request, each notice about the request (its target, Host, '
     'method, expectations, negotiation, upgrade, preferences, deprecated '
     'headers and so on) is reported exactly when the condition that its '
     'title, explanation and cited specification describe holds.',
     ['inputs'], 'For every request, with any or no responses.',
     'See C13.',
     'httpolice/request.py httpolice/known httpolice/notices.xml',
     [('check_request', 'httpolice/request.py')],
     AI + '; equivalence of computed and specified report conditions',
     'As for C13.')

prop('C15', 'Rules for responses fire exactly when documented',
     'For every response, each notice that concerns the response itself '
     '(status, required and forbidden headers, redirects, bodies, dates, '
     'security and informational headers) is reported exactly when the '
     'condition that its title, explanation and cited specification describe '
     'holds, whether or not the request is known.',
     ['inputs'], 'For every response, with or without its request.',
     'See C13.',
     'httpolice/response.py httpolice/known httpolice/notices.xml',
     [('check_response_itself', 'httpolice/response.py')],
     AI + '; equivalence of computed and specified report conditions',
     'As for C13.')

prop('C16', 'Rules relating a response to its request are exact',
     'For every request with its responses, each notice that depends on both '
     '(method and status combinations, upgrades, ranges, preferences, '
     'Location against the target, CONNECT and HEAD, interim and final '
     'responses) is reported exactly when the condition that its title, '
     'explanation and cited specification describe holds.',
     ['inputs', 'histories'],
     'For every request and sequence of responses to it.',
     'The number of combinations of request and response features is out of '
     'reach of samples.',
     'httpolice/response.py httpolice/exchange.py httpolice/known '
     'httpolice/notices.xml',
     [('check_response_in_context', 'httpolice/response.py'),
      ('check_responses', 'httpolice/exchange.py')],
     AI + '; equivalence of computed and specified report conditions',
     'As for C13; sequences are analysed up to two responses.')

prop('C17', 'Caching, conditional and auth rules are exact',
     'Notices about cache directives, freshness, age and warnings, '
     'conditional requests and ranges, and authentication and bearer tokens '
     'are reported exactly when the condition that their title, explanation '
     'and cited specification describe holds.',
     ['inputs'], 'For every request with its responses.',
     'Freshness and authentication conditions combine up to a dozen header '
     'values; tests cover a thin slice.',
     'httpolice/response.py httpolice/request.py httpolice/known '
     'httpolice/notices.xml',
     [('caching checks', 'httpolice/response.py'),
      ('authentication checks', 'httpolice/request.py')],
     AI + '; equivalence of computed and specified report conditions',
     'As for C13.')

prop('C18', 'The tables of known names are right',
     'What the tool knows about each method, status code, header, directive, '
     'coding, media type, authentication scheme and other registered name '
     '(defined-ness, safety, idempotence, cacheability, where it may occur, '
     'how multiple occurrences combine, whether it is deprecated, its '
     'argument) agrees with the registries and specifications it cites.',
     ['inputs', 'configurations'],
     'For every known name and every property of it.',
     'The tables have some 600 rows; a wrong cell shows only on a message '
     'that uses that name in the one place where the cell matters.',
     'httpolice/known httpolice/header.py',
     [('known tables', 'httpolice/known')],
     'table comparison: data evaluated from the source vs. a specification',
     'Cells that influence behaviour are compared with spec/known.txt; '
     'lookups are analysed with the interpreter.')

prop('C19', 'Bodies are decoded as declared, or marked unavailable',
     'The decoded body, its text and its parsed form (form fields, JSON, XML, '
     'multipart) are those obtained by undoing the declared codings in '
     'reverse order and applying the declared character set; if any step is '
     'unknown or fails, everything derived from it is unavailable and '
     'exactly the failed step is reported.',
     ['inputs'],
     'For every body, list of codings, charset and media type.',
     'Combinations of codings, charsets and media types with corrupt data '
     'are unbounded.',
     'httpolice/message.py httpolice/codings.py httpolice/request.py',
     [('decoded_body / unicode_body / parsed data', 'httpolice/message.py'),
      ('decoders', 'httpolice/codings.py')],
     AI + '; values and notices of the payload pipeline vs. specification',
     'The data path through library decoders is symbolic (term equality), '
     'the library decoders themselves are trusted.')

prop('C20', 'Header fields are combined and compared as specified',
     'Field names compare case-insensitively; repeated fields are joined in '
     'order for list headers and reported for single-valued ones; a value is '
     'absent, malformed or okay and comparisons with a malformed or absent '
     'value are false rather than errors; membership tests see all list '
     'elements except malformed ones; directives and parameters are looked '
     'up by name with the first occurrence winning.',
     ['inputs', 'histories'],
     'For every list of header fields and every operation on them.',
     'Behaviour is a function of the whole field list, including order and '
     'duplicates.',
     'httpolice/header.py httpolice/structure.py httpolice/util/data.py',
     [('HeadersView and subclasses', 'httpolice/header.py'),
      ('MultiDict, CaseInsensitive, Parametrized',
       'httpolice/structure.py')],
     AI + ' of the header views over symbolic field lists',
     'Field lists of bounded length with symbolic contents.')

prop('C21', 'HAR entries become the messages they describe',
     'Each HAR entry yields one exchange whose request and responses carry '
     'the recorded method, target, version, headers and body; where HAR '
     'cannot tell (bodies before decoding, versions reported by browsers, '
     'unknown sizes, debugging data of exporters) the corresponding part is '
     'left unknown or marked unavailable instead of being invented; an entry '
     'whose response has the status 0 has no response.',
     ['inputs'], 'For every HAR file.',
     'HAR files differ by exporter; tests have a few from each.',
     'httpolice/inputs/har.py',
     [('_process_entry and friends', 'httpolice/inputs/har.py')],
     AI + ' of the reader over HAR documents; fields of the messages vs. '
     'what the document records',
     'Some 2,400 documents of known content over every combination of '
     'creator, method, status, sizes and kind of body that the reader could '
     'tell apart; strings are samples.')

prop('C22', 'Captured streams are paired and ordered correctly',
     'Every stream file of a capture directory is used at most once and '
     'paired with the stream of the opposite direction of the same '
     'connection, whatever the order of listing; unpaired or misnamed files '
     'are reported as input errors rather than silently ignored or '
     'mispaired; inbound and outbound files given by name are paired in the '
     'order given.',
     ['inputs', 'configurations'],
     'For every set of file names in a capture directory.',
     'Pairing depends on the whole set of names, ports, counters and times.',
     'httpolice/inputs/streams.py',
     [('tcpflow and tcpick readers', 'httpolice/inputs/streams.py')],
     AI + ' of the readers over directory listings, against the pairing the '
     'file names imply',
     'Some 120 listings of up to eight files with constant names, in '
     'different orders of listing; the contents of the files are left '
     'uninterpreted.')

prop('C23', 'Semantic complaints of header parsing are exact',
     'Problems found while interpreting a syntactically valid header or '
     'directive (obsolete or duplicate forms, bad quality values, wrong or '
     'missing directive arguments, invalid dates, duplicate parameters) are '
     'reported exactly when the parsed value has that problem, on the header '
     'it occurs in.',
     ['inputs'], 'For every syntactically valid header value.',
     'The conditions live in the reduce actions of the grammar and in the '
     'directive views; tests sample each once.',
     'httpolice/header.py httpolice/syntax httpolice/structure.py '
     'httpolice/known',
     [('grammar actions', 'httpolice/syntax'),
      ('DirectivesView', 'httpolice/header.py')],
     AI + ' of grammar actions over derivations, and regular languages of '
     'the words whose parse passes a complaining construct, compared with '
     'annotated ABNF',
     'The words on which each notice can be reported are compared as regular '
     'languages with annotated ABNF (spec/marks.txt), with no bound on '
     'length; the conditions on values are decided on some 470 words of '
     '68 headers (spec/values.txt).')

prop('C24', 'Header values mean what the specifications say',
     'The value that a syntactically valid header field contributes to the '
     'checks is what its specification defines: numbers, dates, unescaped '
     'quoted strings and comments, decoded percent-escapes, list elements '
     'and parameters in order, names that compare case-insensitively exactly '
     'where they should, arguments of directives parsed by the syntax of '
     'their directive and unavailable if they do not match it.',
     ['inputs'], 'For every syntactically valid header value.',
     'The rules only see parsed values; tests check notices, so a wrong value '
     'shows only where a sampled rule happens to depend on it.',
     'httpolice/header.py httpolice/syntax httpolice/structure.py',
     [('grammar actions', 'httpolice/syntax'),
      ('HeaderView and subclasses', 'httpolice/header.py')],
     AI + ' of grammar actions over derivations and of header views',
     'Decided on a family of words covering every construct of 68 '
     'headers (spec/values.txt), with symbolic leaves where the code does not '
     'look inside.')

prop('C30', 'The parser accepts exactly the language of its grammar',
     'For every grammar and every input string, the parsing routine accepts '
     'the string if and only if the grammar generates it, and always '
     'terminates.',
     ['inputs', 'programs'], 'For every grammar and string.',
     'Tests parse a few hundred strings.',
     'httpolice/parse.py', [('Earley parser', 'httpolice/parse.py')],
     na='Correctness of a chart-parsing algorithm is a functional property of '
        'worklist loops over runtime-sized charts; no dataflow or type rule '
        'in reach bounds it (it needs an inductive proof). C09/C10 assume '
        'it.')
prop('C31', 'Working time and memory stay proportionate',
     'Checking takes time and memory bounded by a small polynomial of the '
     'size of the input.',
     ['inputs'], 'For every input.',
     'Tests use small inputs.',
     'httpolice/parse.py httpolice/message.py',
     [('Earley parser', 'httpolice/parse.py')],
     na='Resource bounds depend on runtime sizes and on the library '
        'decompressors; static analysis of this Python code cannot bound '
        'them.')
prop('C32', 'Encoders and decoders of extended values are inverse',
     'Decoding an extended parameter value or a transfer/content coding '
     'gives back what a conforming encoder was given.',
     ['inputs'], 'For every value.',
     'Tests decode a few values.',
     'httpolice/codings.py httpolice/syntax/rfc8187.py',
     [('decoders', 'httpolice/codings.py')],
     na='Round-trip equality over byte contents is a value property of '
        'library codecs (zlib, brotli, urllib), not decidable from this '
        'source; C19 decides which codec is applied to what.')
prop('C33', 'Exchanges of a capture come in chronological order',
     'Exchanges read from a capture directory are reported in the order in '
     'which their connections began.',
     ['inputs', 'configurations'], 'For every capture.',
     'Tests have two captures.',
     'httpolice/inputs/streams.py', [('sorting', 'httpolice/inputs')],
     na='Depends on timestamps and file metadata at run time; statically only '
        'the use of a sort could be observed, which C22 covers as far as '
        'names go.')
prop('C34', 'HTML highlighting points at the right characters',
     'In HTML reports, the parts of a message that a notice is about are the '
     'parts highlighted.',
     ['inputs'], 'For every notice with references.',
     'Rendering is done by JavaScript in the browser.',
     'httpolice/reports/html.py', [('data-ref-to', 'httpolice/reports')],
     na='The correspondence is established by client-side script from runtime '
        'object identities; whether the right characters light up is not '
        'visible to static analysis of the Python source.')


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [
                    {'name': a, 'where': b} for a, b in p['mech']],
                    'hook_needed': None}}) + '\n')
            pid = p['id']
            if p['na']:
                na.append({'property': pid, 'reason': p['na']})
            elif os.path.exists(os.path.join(
                    HERE, 'sa/checks/%s.py' % pid.lower())):
                src = open(os.path.join(
                    HERE, 'sa/checks/%s.py' % pid.lower())).read()
                lev = [l for l in src.split('\n')
                       if l.startswith('LEVEL')][0].split("'")[1]
                checks.append({
                    'property': pid,
                    'quick_cmd': 'python3 check.py %s --tier quick' % pid,
                    'thorough_cmd':
                        'python3 check.py %s --tier thorough' % pid,
                    'technique': p['technique'], 'level': lev,
                    'level_note': p['note']})
            else:
                na.append({'property': pid,
                           'reason': 'No check built yet.'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': 'python3 -m compileall -q sa >/dev/null; '
                                'true',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'All checks read the source of /repo and execute '
                            'none of it. No hooks in /repo.'}, f, indent=1)
        f.write('\n')


main()
