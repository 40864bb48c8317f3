"""What decides each property: the units analysed, the rule, the anchors that have to be met."""

ENV = ["model/env.c", "model/hooks_default.c", "model/app_root.c"]
ASSUMPTIONS = [
    "the device SDK, the display and the host behave within the over-approximation in /verif/model/env.c and /verif/sdk",
    "the source is lowered by clang 18 for thumbv6m with /verif/sdk's headers in place of the vendor's",
]
APP = ("Abstract interpretation of the whole application: app_main is interpreted over value sets, symbolic value numbers "
       "and provenance labels; every command byte, user action and service failure is unconstrained; the states in which "
       "the device waits are joined to a fixpoint, so the result covers every history of commands and user actions. ")
FUN = ("Abstract interpretation of the named functions from an unconstrained abstract pre-state: every field, argument and "
       "service result is unknown, and the postcondition has to follow on every abstract path. ")


def app(mon, **kw):
    u = [dict(name="application", files=ENV + ["monitors/" + mon]),
         dict(name="application, small screen", files=ENV + ["monitors/" + mon], flags=["-DTARGET_NANOS"], thorough=True)]
    d = dict(units=u)
    d.update(kw)
    d["explanation"] = APP + d["explanation"]
    return d


def fun(mon, **kw):
    d = dict(units=[dict(name="functions", files=["model/env.c", "model/hooks_default.c", "monitors/" + mon])],
             technique=TECH_FUN, level_note=NOTE_FUN)
    d["units"] += kw.pop("more", [])
    d.update(kw)
    d["explanation"] = FUN + d["explanation"]
    return d


TECH_APP = "abstract interpretation of the whole application with a typestate/provenance monitor"
NOTE_APP = ("Sound over all histories of commands, user actions and service failures within the over-approximated device model; "
            "trusts clang's lowering, the analysis engine and the model of the SDK in /verif/model and /verif/sdk.")
TECH_FUN = "abstract interpretation of the functions from an unconstrained pre-state against a specification harness"
NOTE_FUN = ("Sound over every pre-state and argument the harness leaves unconstrained; trusts clang's lowering, the analysis "
            "engine and the specification harness in /verif/monitors.")

CHECKS = {
    "P01": app("p01.c", explanation="A monitor at the device boundary records the path displayed, the user's decisions and "
               "the key derivation, and constrains every response that carries signature data.",
               rule="every response whose bytes derive from the signing equation is sent while handling the user's press of the "
               "approve screen of the transaction flow, in a session approved before, with the key of the displayed path",
               reach=["signature released", "path of the transaction screen"]),
    "P02": app("p02.c", explanation="A typestate monitor follows the output being described through the answers to the signing commands.",
               rule="an output goes from begun to (fee/change | shown, then approved) before the next one is begun or the transaction is shown",
               reach=["output begun", "output extended", "transaction shown"]),
    "P03": fun("p30.c", explanation="Every function of the transaction serializer is run from every context it can be in, with any declared counts and sizes, contents, and callbacks that may refuse.",
               rule="a call answers ok, more-data or error as the number declared and the number received say; the next part begins when, and only when, the last is complete",
               reach=["begun", "tokens complete", "tokens not complete", "input begun", "frames complete", "frames not complete", "extension after frames",
                      "extension complete", "extension not complete", "inputs not complete", "data inputs after inputs", "outputs after inputs",
                      "data inputs complete", "data inputs not complete", "output begun", "script complete", "script not complete", "fee script",
                      "change script", "output not complete", "outputs complete", "outputs not complete", "registers not complete",
                      "tokens of an output complete", "tokens of an output not complete", "tokens of a box complete", "tokens of a box not complete"]),
    "P04": app("p04.c", explanation="A typestate monitor follows which operation is alive.",
               rule="a step of an operation is answered with success only while that operation is alive",
               reach=["signing step", "attestation step"]),
    "P05": fun("p30.c", explanation="Every function of the transaction serializer is run from every context it can be in, with any declared counts and sizes, contents, and callbacks that may refuse; "
               "and the whole application is run with a monitor of the status words at the device boundary.",
               rule="a call that is not due, or during which anything fails, answers with an error and leaves the error state, from which every call is refused without hashing; "
               "after an error status to a part no further part is answered with success until a new operation is approved",
               reach=["refused", "out of order", "part out of order", "part accepted", "part refused at the boundary"],
               more=[dict(name="application", files=ENV + ["monitors/p05.c"])]),
    "P06": app("p06.c", explanation="A monitor remembers the identifier byte handed out as a symbolic value.",
               rule="P2 of each step carried out equals, as a symbolic value, the byte last handed out for that operation; that byte is single and non-zero",
               reach=["identifier handed out", "session step"]),
    "P07": app("p07.c", explanation="At each command that arrives with a confirmation on display the memory of the application is "
               "marked and compared when the command ends.",
               rule="no global of the application changes, no flow is opened, no data and no success status is returned",
               reach=["command while a confirmation is on display"]),
    "P08": app("p08.c", explanation="Every authenticator computed while a frame is checked is remembered as the range of bytes it covers and its symbolic value.",
               rule="an input frame is answered with success only if the HMAC was computed over exactly the bytes of the frame before its authenticator and equals, byte by byte, the sixteen that follow",
               reach=["authenticator computed", "frame accepted"]),
    "P09": app("p09.c", explanation="The box attested, its digest, the value given and the frame returned are compared as symbolic values.",
               rule="a frame returned holds the digest computed over the finished box, the value given, the index asked for (below the frame count), whole token entries and the authenticator computed over all of it",
               reach=["frame returned"]),
    "P10": app("p10.c", explanation="Every chunk of a command that streams data is followed into the hashing calls.",
               rule="when the command is accepted, the bytes of its chunk were passed to the one hash of the box or transaction exactly once, in order and without gap",
               reach=["piece of the command hashed", "chunk accepted", "chunk accepted with a confirmation"]),
    "P11": app("p11.c", explanation="Private key bytes and one-time secrets carry a provenance label through loads, stores, copies and arithmetic; "
               "labels are examined in every stack buffer when its function returns and in all globals when a command ends.",
               rule="no stack byte of a returned function carries a secret label; no global does after the command, except the one-time secret while its session is open",
               reach=["private key used", "nonce kept for the session"]),
    "P12": app("p12.c", explanation="Provenance labels of every byte passed to the response and display functions.",
               rule="no byte of a response or screen is labelled private key, one-time secret, session key or uninitialised; chain code only from the extended public key command",
               reach=["data returned", "text displayed"]),
    "P13": app("p13.c", explanation="The random bytes drawn are kept as a symbolic value and compared with what is committed to and what blinds.",
               rule="the scalar committed to and the blinding scalar are the bytes last drawn; each draw blinds at most one signature and is gone after it",
               reach=["commitment", "signature blinded", "signature released"]),
    "P14": app("p14.c", explanation="Every call of the key derivation service is an obligation on the abstract values of its path argument.",
               rule="length, purpose, coin, account hardening and, by the kind of request, the levels below are within the stated ranges",
               reach=["key derived", "address or signing key derived", "account key derived", "signing path accepted"]),
    "P15": fun("p15.c", explanation="Every well-formed request is put to the dispatcher with whatever earlier commands left behind; "
               "if a confirmation opens, the user moves to any screen and decides.",
               rule="the request opens a confirmation or is answered with success, and an approval is answered with success (and data, unless only "
               "a display was asked for), on every path on which no service of the device fails",
               reach=["answered at once", "approved"]),
    "P16": fun("p16.c", explanation="The decision whether an output is shown is taken from any context of a signing operation; "
               "the user's decision on an output shown is taken from any context as well.",
               rule="not shown implies: fee script and every token amount zero, or change whose five-level path equals, element by element, the "
               "one approved last or is the signing path up to an index below its own plus 20; the path remembered is the one of the change output approved",
               reach=["output shown", "fee not shown", "change not shown", "change approved before", "change near the signing path",
                      "change approved", "change not approved"]),
    "P17": app("p17.c", explanation="Every response with public key, chain code or address bytes (by provenance label) is an obligation.",
               rule="it answers an approval of that kind of request, or a request with a token equal to the trusted one, which is non-zero",
               reach=["key or address returned on approval", "answered without asking"]),
    "P18": app("p18.c", explanation="The trusted token is compared, as a symbolic value, before and after every command and decision.",
               rule="unchanged, except on an approval of a request, when it equals the token bytes of the command that opened it",
               reach=["request approved"]),
    "P19": fun("p19.c", explanation="Tokens of input frames and of outputs of every kind are put to the signing operation, with any sums so far, every size of "
               "the token table and every place of the token in it, and sums at the edges of the range.",
               rule="the sum of the token becomes, as a symbolic value, the former sum plus or minus the amount; sums of other tokens stay; the amount is "
               "the one kept for display; what does not fit, is unknown or is named twice is refused",
               reach=["new token of an input", "token of an input", "table full", "sum fits", "sum does not fit", "tokens of a frame", "token of an output",
                      "token of a fee output", "token of a change output", "unknown token refused", "difference fits", "difference does not fit",
                      "token twice refused", "tokens of an output"]),
    "P20": app("p20.c", explanation="Every load, store, library copy, division and indirect call is an obligation.",
               rule="the object exists, is not constant if written, and offset+size stays inside it for every value the "
               "analysis allows", unknown_pointers=True),
    "P21": app("p21.c", explanation="Every failure of a service of the device is remembered until the command or decision is answered.",
               rule="no success status follows and no confirmation opens after a failure, except when the commitment of a new session is attempted anew",
               reach=["service failed", "failure answered"]),
    "P22": app("p22.c", explanation="The memory of the application is marked at each command; the header decides which status is due.",
               rule="a header that has to be refused gets its status, no data, no flow and leaves every global unchanged",
               reach=["refusal", "accepted", "incomplete header"]),
    "P23": app("p23.c", explanation="Responses and opened confirmations are counted per command and per decision.",
               rule="command: one response xor a confirmation; decision: one response and no confirmation left; navigation: none, or an error that closes the request",
               reach=["command", "decision"]),
    "P24": app("p24.c", explanation="The path of the request, the path displayed, the path derived and the key and address returned are compared as symbolic values.",
               rule="the path derived and the one displayed are the bytes of the request; what is returned or hashed is that key, compressed, or its address",
               reach=["account key", "address", "change", "path displayed", "change script", "key returned", "address returned"]),
    "P25": app("p25.c", explanation="The amounts read from commands and the sums kept are compared, as symbolic values, with the amounts displayed.",
               rule="an output shows the value of its command; the transaction shows inputs minus change minus fee, and the fee outputs' sum, and no sum wraps",
               reach=["amount or fee shown", "output value shown"]),
    "P26": fun("p26.c", explanation="The screens of an output or of the transaction are walked from first to last and back, with any content, "
               "any kind of output and no, one, two or all twenty tokens to show.",
               rule="each screen draws exactly one item, the items come in order and complete, then approve, then reject; what is drawn is the text made of the item, "
               "an identifier without its middle; minting and burning go by the sign of the sum",
               reach=["ERG amount", "change path", "key address", "minting or burning", "output walked through", "script address",
                      "token amount of an output", "token amount of the transaction", "token identifier", "transaction walked through", "walked back"]),
    "P27": fun("p27.c", explanation="Frames are asked for from a finished box with any identifier, value, tokens and amounts, for every token "
               "count and every index; tokens are sent to a box with any tokens so far, for every number had and received.",
               rule="token k of frame i is, as a symbolic value, token 4i+k of the box with its amount; the token count of a frame is the rest, at "
               "most four; a token received becomes the next of the box with the identifier and amount of its bytes",
               reach=["frame returned", "token in a frame", "tokens received", "token appended"]),
    "P28": app("p28.c", explanation="The sixteen bytes drawn at start are kept as a symbolic value and compared at every HMAC computation.",
               rule="one draw; every HMAC key is that symbolic value", reach=["frame made", "frame checked"]),
    "P29": fun("p29.c", explanation="From any transaction under way, an output with a script of chosen length and any bytes is added and its first screen drawn.",
               rule="what is encoded for the screen is kind and network byte, the key, the script hash or the first 24 bytes of the hash of the whole script, as its bytes say, and the right checksum",
               reach=["network refused", "address made", "output complete", "shown as the address of a key", "shown as the address of a script hash", "shown as the hash of a script"]),
    "P30": fun("p30.c", explanation="Every function of the transaction serializer is run from every context it can be in, with any declared counts and sizes, contents, and callbacks that may refuse.",
               rule="the bytes hashed by the call are, one by one, those of the serialisation written down in the harness; each token and the kind of each output are announced with their bytes",
               reach=["bytes hashed", "identifier"]),
    "P31": app("p31.c", explanation="Every loop is followed round by round, every call into its callees, and every screen that moves on by itself to the one it leads to.",
               rule="each loop met is left within 300 rounds on every path, unless every further round draws anew at random; no chain of calls or of screens moving on is without end"),
    "P32": fun("p32.c", explanation="The start of a signing operation is run for any key and one-time secret with one attempt that fails, and the final confirmation for any key, one-time secret and hash.",
               rule="what is hashed first is the fixed frame of the protocol around the compressed key and the compressed product of generator and one-time secret, "
                    "both scalars checked; the answer is the first 24 bytes of the final hash, checked non-zero, and their product with the key plus the secret, modulo the order"),
    "P33": fun("p33.c", explanation="Whole conversations are held with the dispatcher, from the opening of a session to the signature or the frame, with any contents and numbers.",
               rule="the bytes hashed are those of the standard serialisation of the fields sent, read as documented; each well-formed command is accepted; "
                    "the frame of a box carries the hash of the box and its fields"),
    "P34": fun("p34.c", explanation="Each kind of number is written with any value and any room and read back, and any bytes are read as each kind.",
               rule="what is written is the value in groups of seven bits, least first, signed values folded; reading takes exactly that and gives the value, and refuses "
                    "what has no end, is cut short or is out of range"),
    "P35": fun("p35.c", explanation="Every operation on a buffer is run with any contents, every read and write position, and any length or offset.",
               rule="bytes, positions and answers are those of a queue of bytes; a refused operation changes nothing"),
    "P36": fun("p36.c", explanation="Every well-formed request that opens a confirmation is walked from the screen it opens with to the last and back.",
               rule="each screen draws what is due there: the text made of the path of the request, of the address, of the token; then come approve and reject, and back the same in reverse",
               reach=["path shown", "address shown", "application shown", "address of the network", "key request", "address request", "attestation request",
                      "signing request", "walked back"]),
    "P37": app("p37.c", explanation="Every command that asks for the version or the name, in every state the application can be in, is an obligation on its answer.",
               rule="one successful answer: the version numbers the application is built with and a debug mark of zero, or its name; no screen changes",
               reach=["version", "name"]),
}
# the properties that promise something: the anchors are part of the promise, from these places on
for _p, _at in {"P15": "src/apdu_dispatcher.c", "P19": "src/commands/signtx/stx_amounts.c", "P26": "src/commands/signtx/stx_ui.c", "P27": "src/commands/attestinput",
                "P29": "src/commands/signtx/stx_output.c", "P30": "src/ergo/tx_ser_full.c", "P32": "src/ergo/schnorr.c", "P33": "src/apdu_dispatcher.c",
                "P34": "src/common/gve.c", "P35": "src/common/rwbuffer.c", "P36": "src/commands", "P37": "src/apdu_dispatcher.c"}.items():
    CHECKS[_p]["expected"] = _at
