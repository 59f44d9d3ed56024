NA = {
 "C25": "the parsers read std::ifstream into char buffers and call from_chars/strtol style scanners; loops with data-dependent exits over symbolic text, iostream calls and errno protocols are outside the verifier's instruction and library models",
 "C26": "no independent oracle is available offline: the published tables are only present as the tables in the code itself (except libration), and a contract that quotes the code's own numbers would prove nothing",
}
