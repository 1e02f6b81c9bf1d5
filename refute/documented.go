package main

// The grammar documented above SelfGrammar, one rule a line. Made by spec/self/gen.py.
var documentedText = []string{
	"<syntax>          ::= <opt-whitespace> <content> <more-lines>",
	"<more-lines>      ::= \"\" | <EOL> <line> <more-lines>",
	"<line>            ::= <opt-whitespace> <opt-content>",
	"<opt-content>     ::= <content> | \"\"",
	"<content>         ::= \"<\" <rule-name> \">\" <opt-whitespace> \"::=\"                        <opt-whitespace> <expression>",
	"<expression>      ::= <list> <expression-tail>",
	"<expression-tail> ::= \"\" | \"|\" <opt-whitespace> <list> <expression-tail>",
	"<list>            ::= <term> <opt-whitespace> <list-tail>",
	"<list-tail>       ::= \"\" | <term> <opt-whitespace> <list-tail>",
	"<term>            ::= <literal> | \"<\" <rule-name> \">\"",
	"<literal>         ::= '\"' <text1> '\"' | \"'\" <text2> \"'\"",
	"<text1>           ::= \"\" | <character1> <text1>",
	"<text2>           ::= \"\" | <character2> <text2>",
	"<character1>      ::= \"'\" | <character>",
	"<character2>      ::= '\"' | <character>",
	"<character>       ::= <letter> | <digit> | <symbol> | <escape-sequence>",
	"<escape-sequence> ::= \"\\\\\" <escaped-char>",
	"<escaped-char>    ::= \"t\" | \"n\" | \"r\" | '\"' | \"\\\\\"",
	"<rule-name>       ::= <letter> <rule-name-tail>",
	"<rule-name-tail>  ::= \"\" | <rule-char> <rule-name-tail>",
	"<rule-char>       ::= <letter> | <digit> | \"-\"",
	"<letter>          ::= \"A\" | \"B\" | \"C\" | \"D\" | \"E\" | \"F\" | \"G\" | \"H\" |                        \"I\" | \"J\" | \"K\" | \"L\" | \"M\" | \"N\" | \"O\" | \"P\" |                        \"Q\" | \"R\" | \"S\" | \"T\" | \"U\" | \"V\" | \"W\" | \"X\" |                        \"Y\" | \"Z\" | \"a\" | \"b\" | \"c\" | \"d\" | \"e\" | \"f\" |                        \"g\" | \"h\" | \"i\" | \"j\" | \"k\" | \"l\" | \"m\" | \"n\" |                        \"o\" | \"p\" | \"q\" | \"r\" | \"s\" | \"t\" | \"u\" | \"v\" |                        \"w\" | \"x\" | \"y\" | \"z\"",
	"<digit>           ::= \"0\" | \"1\" | \"2\" | \"3\" | \"4\" | \"5\" | \"6\" | \"7\" |                        \"8\" | \"9\"",
	"<symbol>          ::= \"|\" | \" \" | \"!\" | \"#\" | \"$\" | \"%\" | \"&\" | \"(\" |                        \")\" | \"*\" | \"+\" | \",\" | \"-\" | \".\" | \"/\" | \":\" |                        \";\" | \">\" | \"=\" | \"<\" | \"?\" | \"@\" | \"[\" |                        \"]\" | \"^\" | \"_\" | \"`\" | \"{\" | \"}\" | \"~\"",
	"<opt-whitespace>  ::= \" \" <opt-whitespace> | \"\"",
	"<EOL>             ::= \"\\n\" | \"\\r\\n\"",
}
