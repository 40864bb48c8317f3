"""The properties (source of properties.jsonl and, with table.py, of MANIFEST.json)."""

H = ["inputs", "histories", "fault_sequences"]
TESTS = "The 142 unit tests exercise only the serializers and parsers that build on the host; "


def P(id, title, statement, over, text, why, files, mech, observe, state=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return dict(prop=d, na=na)


STX = "src/commands/signtx/"
OP = STX + "operations/stx_op_p2pk.c"
PROPS = [
    P("P01", "A signature needs the user's approval and the displayed key",
      "A signature leaves the device only as the answer to the user's approval of the transaction screens, in a signing session "
      "the user approved before. It is made with the key of exactly the derivation path that was displayed when the session was "
      "approved and again with the transaction.",
      H, "every sequence of commands, user actions and crypto/IO failures",
      TESTS + "no test executes a handler, a screen or a signature.",
      [OP, STX + "stx_handler.c", STX + "stx_ui.c"],
      [("approval callbacks release the response", STX + "stx_ui.c"), ("state machine of the operation", OP),
       ("key derived from the stored path at release", OP)], ["APDU responses", "screens", "key derivation syscall"]),
    P("P02", "Every output is approved or exempt before the transaction is",
      "The transaction is put up for the final approval only when it has an output and every output begun was completed, and each "
      "one either was shown to the user and approved, or was described as miners' fee or as change to a key of this device. No "
      "other output is begun, and no output extended, while one awaits the user, and none is begun while one is incomplete.",
      H, "every sequence of signing commands and user decisions within a session",
      TESTS + "the tests drive complete outputs in order; an output abandoned half way is never tried with the handlers.",
      [OP, "src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", STX + "stx_output.c"],
      [("serializer state machine", "src/ergo/tx_ser_full.c"), ("should_show decision after each chunk", OP)],
      ["APDU responses", "screens"]),
    P("P03", "A transaction has exactly the parts declared for it",
      "A transaction is taken as complete exactly when the declared numbers of token identifiers, inputs, frames of each input, extension "
      "bytes, data inputs, outputs, script bytes, tokens and register bytes of each output have been received, in that order: a part "
      "that is short is waited for, one that is too long is refused, and zero inputs or outputs are refused. The same holds for the "
      "tokens of a box being attested.",
      ["inputs"], "every declared number; every number received in one command",
      TESTS + "they run whole transactions of a few fixed shapes.",
      ["src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.c", "src/common/gve.c"],
      [("transaction serializer", "src/ergo/tx_ser_full.c"), ("box serializer", "src/ergo/tx_ser_box.c"), ("input serializer", "src/ergo/tx_ser_input.c")],
      ["application state", "status words"]),
    P("P04", "Session commands work only inside a live approved session",
      "A step of a signing or attestation operation is carried out only after that operation was approved by the user (or, for "
      "attestation, requested by the application approved last) and before it ended. A rejection, a final decision, an error "
      "status (other than busy or wrong P1/P2) to a signing or attestation command, or instead of a decision when a screen cannot be drawn, or an accepted new operation on keys ends it.",
      H, "every sequence of commands, user decisions and failures",
      TESTS + "no test executes the command handlers.",
      ["src/context.c", STX + "stx_handler.c", "src/commands/attestinput/ainpt_handler.c"],
      [("command id and per-operation state checked first", STX + "stx_handler.c"),
       ("error handler resets the current command", "src/helpers/cmd_macros.h")], ["APDU responses"]),
    P("P05", "A refused part ends the transaction",
      "When a part of a transaction is refused, because it is malformed, too long, out of order, or a service fails, the serializer "
      "answers with an error and from then on refuses every further part, without hashing it, until a new transaction is begun. At the "
      "device boundary, after an error status (other than busy or wrong P1/P2) to a part of a transaction or of a box being attested, "
      "no further part is accepted until a new operation was requested and approved.",
      ["inputs", "fault_sequences"], "every state, every malformed part, every failing service",
      TESTS + "they try single malformed parts and stop there.",
      ["src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.c", "src/common/gve.c"],
      [("error state", "src/ergo/tx_ser_full.c"), ("error state", "src/ergo/tx_ser_box.c"), ("error state", "src/ergo/tx_ser_input.c")],
      ["application state", "status words"]),
    P("P06", "Session steps need the session identifier handed out",
      "When a signing or attestation operation is accepted the host gets a one-byte non-zero identifier. Every later step of the "
      "operation is carried out only if the command carries exactly the identifier handed out for the operation in progress.",
      H, "every sequence of commands, identifiers, user decisions and random draws",
      TESTS + "no test executes the command handlers.",
      [STX + "stx_handler.c", "src/commands/attestinput/ainpt_handler.c", "src/helpers/session_id.h"],
      [("session check", STX + "stx_handler.c"), ("session check", "src/commands/attestinput/ainpt_handler.c")], ["APDU responses"]),
    P("P07", "No command acts while the user is being asked",
      "While a confirmation is on display, no command replaces it, changes anything the application remembers, returns data or "
      "succeeds, apart from asking for the version or the name.",
      H, "every confirmation screen, every command arriving meanwhile",
      TESTS + "no test has a screen.",
      ["src/context.c", "src/ui/ui_main.c", "src/apdu_dispatcher.c"],
      [("busy flag checked first by each handler", "src/commands")], ["APDU responses", "screens", "application state"]),
    P("P08", "Input frames are used only with a valid authenticator",
      "While signing, an input frame is accepted only if its authenticator, recomputed on the device over all the bytes of the frame "
      "that come before it (identifier, counts, index, value and every token), equals the sixteen bytes that follow in the command.",
      H, "every frame, every command length, every history",
      TESTS + "no test runs the handler that checks a frame.",
      [STX + "stx_handler.c", "src/helpers/input_frame.c"],
      [("authenticator check", STX + "stx_handler.c"), ("length of the authenticated part", "src/helpers/input_frame.c")],
      ["HMAC calls", "APDU responses"]),
    P("P09", "An attested frame describes the box the device hashed",
      "A frame is returned only for a box whose every declared byte was received and hashed. It carries the digest the device computed, the value "
      "given for the box, the frame index asked for (below the number of frames), a whole number of token entries, and the "
      "authenticator computed over all of that.",
      H, "every sequence of attestation commands and failures",
      TESTS + "no test runs the attestation handlers.",
      ["src/commands/attestinput/ainpt_response.c", "src/commands/attestinput/ainpt_handler.c", "src/ergo/tx_ser_box.c"],
      [("frame built from the context", "src/commands/attestinput/ainpt_response.c"), ("finished check", "src/commands/attestinput/ainpt_handler.c")],
      ["APDU responses", "hash calls", "HMAC calls"]),
    P("P10", "Every streamed chunk is hashed exactly once, in order",
      "When a chunk of an ErgoTree, of registers or of a context extension is accepted, in attestation or in signing, exactly the bytes of the "
      "chunk were added to the hash of that box or transaction, each once and in order.",
      H, "every chunk, length and history",
      "The unit tests hash a few fixed boxes; the handlers in between are never run.",
      ["src/common/gve.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", STX + "stx_handler.c", "src/commands/attestinput/ainpt_handler.c"],
      [("chunks hashed as received", "src/ergo/tx_ser_box.c"), ("context extension chunks", "src/ergo/tx_ser_input.c")], ["hash calls", "APDU responses"]),
    P("P11", "Secrets do not outlive the command that needed them",
      "After a command or decision that used a private key, no private key bytes and nothing computed from them except the "
      "signature and public keys stay in memory, on success and on failure. The one-time secret of a signature is kept only while its signing session is open.",
      H, "every command and decision, every failure of a crypto service, every path out of the functions that hold secrets",
      TESTS + "memory left behind is not observed by any test.",
      ["src/helpers/crypto.c", "src/ergo/schnorr.c", OP],
      [("explicit_bzero of key buffers", "src/helpers/crypto.c"), ("wipe after signing", OP)], ["globals", "stack buffers of returned functions"]),
    P("P12", "No secret and no stale memory leaves the device",
      "No response and no screen carries private key bytes, one-time signing secrets or the key that authenticates input frames, "
      "and no response carries bytes of memory never written. The chain code is returned only by the extended public key command.",
      H, "every response and every screen text under every history",
      TESTS + "no test sees a response.",
      ["src/helpers/response.c", "src/commands", "src/ui"],
      [("responses built from fixed buffers", "src/commands")], ["APDU responses", "screens"]),
    P("P13", "Each signature uses its own fresh, committed one-time secret",
      "The one-time secret of a signature is drawn at random for its session, the signature commits to that very secret and is "
      "blinded by it, and it blinds no second signature: it is wiped once used.",
      H, "every sequence of sessions, failures and decisions",
      TESTS + "no test signs.",
      ["src/ergo/schnorr.c", OP],
      [("nonce drawn at session start", "src/ergo/schnorr.c"), ("nonce wiped when the response is made", OP)],
      ["random number syscall", "curve multiplication syscall", "APDU responses"]),
    P("P14", "Keys are derived only inside the Ergo account tree",
      "Whatever the host asks, keys are derived only for paths of three to ten levels under 44'/429' with a hardened account. "
      "Extended public keys moreover need every further level hardened; addresses, change keys and signatures need at least five "
      "levels, the fourth being 0 or 1 and those below not hardened.",
      H, "every path bytes and length in every command",
      TESTS + "path validation is sampled; that every command validates before it derives is not.",
      ["src/common/bip32_ext.c", "src/commands"],
      [("bip32_path_validate before every derivation", "src/commands")], ["key derivation syscall"]),
    P("P15", "A well-formed request is served and, approved, answered",
      "With no confirmation on display and no service of the device failing, a well-formed request is never refused, whatever was "
      "done before: an extended public key at 44'/429'/account with further levels hardened (3 or 4 levels), an address or a signing session "
      "at 44'/429'/account'/0 or 1/index, for mainnet or testnet, and the start of an attestation of a box with up to 20 tokens and "
      "32768 bytes of tree and of registers, each with or without an application token. It is answered with success or put up for "
      "confirmation; once approved it is answered with success, and with its data unless only a display was asked for.",
      ["inputs", "histories"], "every such path, token, box description and state left behind",
      TESTS + "no handler is run.",
      ["src/apdu_dispatcher.c", "src/commands", "src/common/bip32_ext.c"],
      [("handlers", "src/commands"), ("path validation", "src/common/bip32_ext.c")], ["APDU responses", "screens"]),
    P("P16", "Only plain fees and change near the signing key go unshown",
      "An output is taken without being shown only if it pays the miners' fee script and carries no tokens, or is change to a "
      "five-level Ergo path that either equals the change path the user approved last in this session, or agrees with the signing "
      "path in its first four levels and has an address index below the signing path's plus 20. A change path counts as approved "
      "only if it is the one of the change output the user approved last; deciding on any other output forgets it.",
      ["inputs", "histories"], "every output, signing path, change path and earlier decision",
      TESTS + "the decision is taken by code the tests do not run.",
      [OP, STX + "stx_output.h", STX + "stx_output.c", STX + "stx_types.h"],
      [("should_show decision", OP), ("change path remembered on approval", OP)], ["screens", "application state"]),
    P("P17", "Keys and addresses go out only approved or to the trusted app",
      "A public key, chain code or address is returned only after the user approved that request, or without asking if the request carries "
      "a non-zero application token equal to that of the last approved request. A request to display an address always asks the user.",
      H, "every request, every token value, every history of approvals",
      TESTS + "no test executes the command handlers.",
      ["src/commands/extpubkey/epk_handler.c", "src/commands/deriveaddress/da_handler.c", "src/helpers/session_id.h"],
      [("is_known_application", "src/helpers/session_id.h")], ["APDU responses"]),
    P("P18", "Trust in an application comes only from the user's approval",
      "The application token trusted to skip confirmations changes only when the user approves a key, address, attestation or "
      "signing-session request, and then becomes exactly the token of that request (none if it had none).",
      H, "every sequence of commands, tokens and decisions",
      TESTS + "no test executes the command handlers.",
      ["src/context.c", "src/commands"],
      [("app_set_connected_app_id in approval callbacks only", "src/context.c")], ["application state"]),
    P("P19", "The token sums shown are inputs minus outputs, exactly",
      "For every token the transaction screens use the sum of its amounts in all input frames minus the sum in all outputs, whatever "
      "their kind, and an output's screens the amount that output carries. A token of an input not known yet is added to the transaction's "
      "tokens; a token of an output that is not among the tokens declared at the start is refused, and so is a sum that does not fit "
      "64 bits, a twenty-first token, and an output that names a token again after a non-zero amount.",
      ["inputs"], "every amount, every table size and place in it; sums at the edges of the range",
      TESTS + "they cover single additions with chosen values.",
      [STX + "stx_amounts.c", STX + "stx_output.c", STX + "operations/stx_op_p2pk.c", "src/common/safeint.h", "src/ergo/tx_ser_box.c",
       "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.h"],
      [("sums", STX + "stx_amounts.c"), ("overflow checks", "src/common/safeint.h"), ("token callbacks", STX + "operations/stx_op_p2pk.c")],
      ["screens", "status words"]),
    P("P20", "No command or user action makes the app access memory wrongly",
      "Whatever bytes the host sends, whatever the user does and whatever services fail, every read, write and library copy stays "
      "inside the object it is meant for, no constant object is written, nothing is divided by zero and only valid functions are called through pointers.",
      H, "all command bytes and lengths, histories, user navigation and service failures",
      TESTS + "handlers and screens are never run, and lengths are sampled.",
      ["src"], [("buffer_t bounds checks", "src/common"), ("explicit length checks", "src/ergo")], ["loads, stores, copies, calls"]),
    P("P21", "A failed cryptographic service never ends in success",
      "When a cryptographic service of the device fails while a command or decision is handled, the answer is an error status: no data and no "
      "success is returned and no confirmation opens. (Making the commitment of a new signing session may be tried again first.)",
      H, "every failure of every service at every call",
      TESTS + "services never fail in tests.",
      ["src/helpers", "src/ergo", "src/commands"],
      [("result of each service checked", "src/helpers/crypto.c"), ("hash results checked", "src/helpers/blake2b.c")], ["service results", "APDU responses", "screens"]),
    P("P22", "Unknown and misaddressed commands are refused without effect",
      "A command of another class, with an unknown instruction or with P1/P2 outside those of its instruction is refused with the "
      "status for that (6E00, 6D00, 6A86) and changes nothing the application remembers or displays; an incomplete command is refused likewise. "
      "Known commands are never refused as unknown, and the version and the name are always answered without changing anything.",
      H, "every header, in every state of the application",
      TESTS + "the dispatcher is never run.",
      ["src/apdu_dispatcher.c", "src/app_main.c"],
      [("dispatcher switch", "src/apdu_dispatcher.c")], ["APDU responses", "screens", "application state"]),
    P("P23", "Every command and every decision gets exactly one answer",
      "Every command is either answered once or opens a confirmation, never both. Every decision of the user closes the "
      "confirmation and answers once, a rejection with the denial status; moving through the screens answers nothing unless a "
      "screen cannot be drawn, which ends the request with an error.",
      H, "every command, every screen, every decision and failure",
      TESTS + "no test executes a handler or a screen.",
      ["src/apdu_dispatcher.c", "src/ui", "src/commands"],
      [("handlers return the response they sent", "src/commands"), ("approve/reject callbacks", "src/ui/ui_approve_reject.c")],
      ["APDU responses", "screens"]),
    P("P24", "Keys and addresses are those of the path asked for and shown",
      "The path displayed when a key or an address is requested is the path of the request. The extended public key returned is the compressed key "
      "and chain code of that path, the address returned belongs to the key of that path, and the script of a change output is the one paying to the key of "
      "the path given for the change.",
      H, "every path, every history and failure",
      TESTS + "no test derives a key.",
      ["src/commands/extpubkey/epk_handler.c", "src/commands/deriveaddress/da_handler.c", OP],
      [("public key response", "src/commands/extpubkey/epk_response.c"), ("address response", "src/commands/deriveaddress/da_response.c"),
       ("change tree generated on the device", OP)],
      ["key derivation syscall", "APDU responses", "screens", "hash calls"]),
    P("P25", "The ERG amounts shown are those of the transaction",
      "Amounts are shown as ERG with nine decimals. The value shown for an output is the value of that output. The transaction screens show as amount "
      "the sum of the inputs minus change minus fee, and as fee the sum of the fee outputs; no such sum wraps around.",
      H, "every transaction and history",
      TESTS + "the screens that use the amounts are never run.",
      ["src/ergo/tx_ser_full.c", STX + "stx_amounts.c", STX + "stx_ui.c"],
      [("amounts accumulated per input and output", STX + "stx_amounts.c"), ("screen text", STX + "stx_ui.c")], ["screens"]),
    P("P26", "Walking the screens shows all of an output or transaction",
      "Going right from the first screen of an output shows, one per screen and in order, where it goes (the address of its public key, "
      "script or script hash on the network in use, or the words for the miners' fee), its ERG value, and for each token with a non-zero "
      "amount its identifier (the first and last 26 hexadecimal digits) and then that amount in full; for change only the path; for the transaction, the signing path, the amount, the fee, and for each token whose sum is not "
      "zero its identifier and the absolute amount, called minting when more leaves than enters and burning otherwise. Only then come "
      "approve and reject. Going left shows the same in reverse, and looking changes nothing of the transaction.",
      ["inputs"], "every content of an output or transaction; no, one, any two or all tokens non-zero",
      TESTS + "the screens are never run.",
      [STX + "stx_ui.c", STX + "stx_output.c", STX + "stx_amounts.c", "src/ui/ui_dynamic_flow.c"],
      [("screens of an output", STX + "stx_ui.c"), ("screen navigation", "src/ui/ui_dynamic_flow.c")], ["screens"]),
    P("P27", "The frames of a box carry its tokens, in order and complete",
      "Each token accepted for a box being attested becomes the box's next token, with the identifier and amount received. Frame i of "
      "the box carries its identifier and value and its tokens 4i to 4i+3 as far as there are any, in order, each with its "
      "identifier and amount, and counts that match; the number of frames is the number of tokens divided by four rounded up, at "
      "least one, and every frame below that number can be had.",
      ["inputs"], "every number of tokens had, received and every frame index; every identifier and amount",
      TESTS + "no test makes a frame.",
      ["src/commands/attestinput/ainpt_response.c", "src/commands/attestinput/ainpt_handler.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_table.c"],
      [("frame contents", "src/commands/attestinput/ainpt_response.c"), ("token callback", "src/commands/attestinput/ainpt_handler.c")],
      ["APDU responses", "application state"]),
    P("P28", "Input frames are authenticated with a fresh per-run key only",
      "The key that authenticates input frames is drawn at random once, when the application starts, and every frame made or "
      "checked later is authenticated with exactly those sixteen bytes.",
      H, "every history after start-up",
      TESTS + "no test computes an authenticator.",
      ["src/context.c", "src/commands/attestinput/ainpt_response.c", STX + "stx_handler.c"],
      [("session key drawn in app_init", "src/context.c")], ["random number syscall", "HMAC calls"]),
    P("P29", "An output's address is the one its script says",
      "An output whose script is exactly the pay-to-public-key script of a compressed key is shown as the address of that key, one with "
      "exactly the pay-to-script-hash script as the address of that hash, and any other script, however it is split, as the script address made of the first "
      "24 bytes of the BLAKE2b-256 hash of all its bytes. Every such address, and every one the device makes, is kind plus network, content and the "
      "first four bytes of the BLAKE2b-256 hash of these; no address is made for a network number above 252.",
      ["inputs"], "every script of the lengths at and next to the two recognised ones, short, long and in two pieces; every key, hash and network",
      TESTS + "they check the address of one key and the recognition of sample scripts, never what is shown.",
      ["src/ergo/address.c", "src/ergo/ergo_tree.c", STX + "stx_output.c", STX + "stx_ui.c", STX + "operations/stx_op_p2pk.c"],
      [("addresses", "src/ergo/address.c"), ("script recognition", "src/ergo/ergo_tree.c"), ("script of an output", STX + "stx_output.c")],
      ["screens"]),
    P("P30", "What is hashed is the standard serialisation",
      "The bytes hashed into the transaction identifier are those of Ergo's serialisation, in order: number of inputs; per input its "
      "identifier, an empty proof and its extension (a zero byte when there is none); number of data inputs and their identifiers; "
      "number of tokens and their identifiers; number of outputs; per output value, script, height, number of tokens, each token's "
      "index and amount, and its registers (a zero byte when there are none), numbers in the variable-length encoding with seven bits "
      "per byte. Of an attested box the tokens are given by identifier, and the transaction identifier and output index follow.",
      ["inputs"], "every number, identifier and content; pieces of 0, 1, 36 and 255 bytes",
      TESTS + "they compare the hash of a few fixed transactions.",
      ["src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.c", "src/common/gve.c"],
      [("transaction serializer", "src/ergo/tx_ser_full.c"), ("box serializer", "src/ergo/tx_ser_box.c"), ("input serializer", "src/ergo/tx_ser_input.c"),
       ("number encoding", "src/common/gve.c")],
      ["bytes passed to the hash service"]),
    P("P31", "Every command and every user action comes to an end",
      "Handling a command or a press ends after a bounded number of steps, whatever the command holds and whatever state the app is in; only a wait for a "
      "random number that has to differ from another may be repeated, with a fresh draw each time. No function calls itself without "
      "end, and no two screens send the user to one another without end.",
      H, "every command, history, user action and service failure",
      TESTS + "handlers and screens are never run.",
      ["src"], [("random identifiers", "src/helpers/session_id.h"), ("signing retries", "src/ergo/schnorr.c"), ("number encoding", "src/common/gve.c")],
      ["loops, calls, screens"]),
    P("P32", "The signature is the Schnorr proof over what was hashed",
      "Signing starts by hashing the fixed frame of the protocol around the compressed public key of the path asked for and the compressed commitment to "
      "a one-time secret drawn for this operation, both scalars checked to be non-zero and within the group. The 56 bytes answered are the first 24 bytes of "
      "the hash of that and the transaction, refused if zero, and challenge times key plus one-time secret modulo the order of the group. "
      "An attempt that fails leaves nothing behind in the hash.",
      ["inputs", "fault_sequences"], "every path, key, one-time secret, hash and service failure",
      TESTS + "schnorr.c is device-only code that no test compiles.",
      ["src/ergo/schnorr.c", "src/commands/signtx/operations/stx_op_p2pk.c"],
      [("commitment and response", "src/ergo/schnorr.c"), ("operation", "src/commands/signtx/operations/stx_op_p2pk.c")],
      ["bytes hashed, arguments of curve and modular arithmetic, answer"]),
    P("P33", "What is signed or attested is what was sent",
      "A client that sends a transaction part by part as documented gets a signature over the standard serialisation of exactly those parts: every field "
      "is read in its documented place, width and byte order, and none is lost, repeated, moved or mixed up with another. The same holds for a box that is attested: its "
      "identifier is the hash of the parts sent, and its frame carries their value and tokens. No well-formed command on the way is refused.",
      ["inputs", "histories"], "every value, identifier, script, register and amount sent, in conversations with one or two inputs, frames and outputs, none to three data inputs, none or two tokens",
      TESTS + "the handlers that read the fields, and a whole conversation, are never run.",
      [STX + "stx_handler.c", OP, "src/commands/attestinput/ainpt_handler.c", "src/commands/attestinput/ainpt_response.c", "src/apdu_dispatcher.c"],
      [("fields of the commands", STX + "stx_handler.c"), ("order of the parts", OP), ("box being attested", "src/commands/attestinput/ainpt_handler.c")],
      ["commands", "bytes hashed", "responses"]),
    P("P34", "Numbers read back as they were written",
      "A number of any width, with or without sign, is encoded in groups of seven bits, the least first and the last marked, signed numbers folded so that small ones stay small; "
      "where the encoding does not fit, nothing is written. Reading takes exactly the encoding and gives the same number; an encoding that is cut short, has no end "
      "within 64 bits, or stands for a number the type does not have, is refused.",
      ["inputs"], "every value of every type, every room, every sequence of bytes",
      TESTS + "the tests encode and decode one number of each type.",
      ["src/common/gve.c", "src/common/gve.h", "src/common/zigzag.h"],
      [("groups of seven bits", "src/common/gve.c"), ("folding of signed numbers", "src/common/zigzag.h")], ["gve_put_*", "gve_get_*"]),
    P("P35", "A buffer gives back what was written, in order, once",
      "Writing appends exactly the bytes given, numbers in the byte order asked for, and reading gives them back in order; both move on by exactly what was transferred. "
      "What does not fit or is not there is refused, and then neither bytes nor positions change. No move takes the place to read "
      "beyond the data or the place to write out of the buffer or before what was read, and moving the data to the front keeps it.",
      ["inputs", "histories"], "every content, position, length and offset",
      TESTS + "the tests try a few positions and lengths.",
      ["src/common/rwbuffer.c", "src/common/rwbuffer.h", "src/common/buffer_ext.c", "src/common/buffer_ext.h"],
      [("writing and moving", "src/common/rwbuffer.c"), ("reading and counting", "src/common/rwbuffer.h")], ["rw_buffer_*", "buffer_*"]),
    P("P36", "Walking the screens shows all of a request",
      "Going right from where a confirmation of a request opens shows, one per screen, the path asked for in full (for a key, an address or a signing session), "
      "the whole address of the path on the network asked for (where an address is to be displayed), and the token of the application in eight hexadecimal digits "
      "(where one is given; for a signing session always unless it is the trusted one). Only then come approve and reject. Going left shows the same in reverse, and looking "
      "answers nothing.",
      ["inputs", "histories"], "every well-formed request, path and token, whatever was done before",
      TESTS + "no request and no screen is run.",
      ["src/commands/extpubkey/epk_ui.c", "src/commands/deriveaddress/da_ui.c", "src/commands/attestinput/ainpt_ui.c", OP, "src/ui"],
      [("screens of requests", "src/commands"), ("screens in common", "src/ui")], ["screens"]),
    P("P37", "The version and the name are given whenever asked for",
      "Asked without parameters and data, the application answers at once and with success, whatever operation is under way or on display: with its major, minor and patch "
      "version and a debug mark that is zero in a release, or with its name. The screen stays as it is.",
      H, "every state the application can be in",
      TESTS + "no handler is run.",
      ["src/commands/app_version.c", "src/commands/app_name.c", "src/apdu_dispatcher.c"],
      [("version", "src/commands/app_version.c"), ("name", "src/commands/app_name.c")], ["APDU responses"]),
]
