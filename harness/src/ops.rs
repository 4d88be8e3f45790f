//! Generated by tools/genops.py from spec/spec.json: the operator a token stands for, by form.
use wolfram_parser::tokenize::TokenKind as T;
pub fn binary(t: T) -> &'static str {
    match t {
        T::PlusEqual => "AddTo",
        T::LongName_Application => "Application",
        T::AtAt => "Apply",
        T::SlashSlashEqual => "ApplyTo",
        T::LongName_Because => "Because",
        T::At | T::LongName_InvisibleApplication => "BinaryAt",
        T::SlashSlash => "BinarySlashSlash",
        T::LongName_CircleMinus => "CircleMinus",
        T::SlashSemi => "Condition",
        T::LongName_DirectedEdge => "DirectedEdge",
        T::LongName_Divide | T::LongName_DivisionSlash | T::Slash => "Divide",
        T::SlashEqual => "DivideBy",
        T::LongName_DoubleLeftTee => "DoubleLeftTee",
        T::LongName_DoubleRightTee => "DoubleRightTee",
        T::LongName_DownTee => "DownTee",
        T::BarMinusGreater | T::LongName_Function => "Function",
        T::LongName_Implies => "Implies",
        T::LongName_LeftTee => "LeftTee",
        T::SlashAt => "Map",
        T::SlashSlashAt => "MapAll",
        T::AtAtAt => "MapApply",
        T::LongName_MinusPlus => "MinusPlus",
        T::Colon => "Pattern",
        T::Question => "PatternTest",
        T::LongName_Perpendicular => "Perpendicular",
        T::LongName_PlusMinus => "PlusMinus",
        T::Caret => "Power",
        T::GreaterGreater => "Put",
        T::GreaterGreaterGreater => "PutAppend",
        T::SlashDot => "ReplaceAll",
        T::SlashSlashDot => "ReplaceRepeated",
        T::LongName_RightTee => "RightTee",
        T::LongName_RoundImplies => "RoundImplies",
        T::LongName_Rule | T::MinusGreater => "Rule",
        T::ColonGreater | T::LongName_RuleDelayed => "RuleDelayed",
        T::Equal => "Set",
        T::ColonEqual => "SetDelayed",
        T::SemiSemi => "Span",
        T::MinusEqual => "SubtractFrom",
        T::LongName_SuchThat => "SuchThat",
        T::LongName_Therefore => "Therefore",
        T::StarEqual => "TimesBy",
        T::LessMinusGreater | T::LongName_TwoWayRule => "TwoWayRule",
        T::LongName_UndirectedEdge => "UndirectedEdge",
        T::CaretEqual => "UpSet",
        T::CaretColonEqual => "UpSetDelayed",
        T::LongName_UpTee => "UpTee",
        _ => "",
    }
}
pub fn infix(t: T) -> &'static str {
    match t {
        T::Bar => "Alternatives",
        T::AmpAmp | T::LongName_And => "And",
        T::LongName_Backslash => "Backslash",
        T::LongName_Cap => "Cap",
        T::LongName_CenterDot => "CenterDot",
        T::LongName_CircleDot => "CircleDot",
        T::LongName_CirclePlus => "CirclePlus",
        T::LongName_CircleTimes => "CircleTimes",
        T::LongName_Colon => "Colon",
        T::Comma | T::LongName_InvisibleComma => "Comma",
        T::AtStar => "Composition",
        T::Semi => "CompoundExpression",
        T::LongName_Conditioned => "Conditioned",
        T::LongName_Congruent => "Congruent",
        T::LongName_Coproduct => "Coproduct",
        T::LongName_Cross => "Cross",
        T::LongName_Cup => "Cup",
        T::LongName_CupCap => "CupCap",
        T::LongName_Diamond => "Diamond",
        T::LongName_Distributed => "Distributed",
        T::LongName_Divides => "Divisible",
        T::Dot => "Dot",
        T::LongName_DotEqual => "DotEqual",
        T::LongName_DoubleDownArrow => "DoubleDownArrow",
        T::LongName_DoubleLeftArrow => "DoubleLeftArrow",
        T::LongName_DoubleLeftRightArrow => "DoubleLeftRightArrow",
        T::LongName_DoubleLongLeftArrow => "DoubleLongLeftArrow",
        T::LongName_DoubleLongLeftRightArrow => "DoubleLongLeftRightArrow",
        T::LongName_DoubleLongRightArrow => "DoubleLongRightArrow",
        T::LongName_DoubleRightArrow => "DoubleRightArrow",
        T::LongName_DoubleUpArrow => "DoubleUpArrow",
        T::LongName_DoubleUpDownArrow => "DoubleUpDownArrow",
        T::LongName_DoubleVerticalBar => "DoubleVerticalBar",
        T::LongName_DownArrow => "DownArrow",
        T::LongName_DownArrowBar => "DownArrowBar",
        T::LongName_DownArrowUpArrow => "DownArrowUpArrow",
        T::LongName_DownLeftRightVector => "DownLeftRightVector",
        T::LongName_DownLeftTeeVector => "DownLeftTeeVector",
        T::LongName_DownLeftVector => "DownLeftVector",
        T::LongName_DownLeftVectorBar => "DownLeftVectorBar",
        T::LongName_DownRightTeeVector => "DownRightTeeVector",
        T::LongName_DownRightVector => "DownRightVector",
        T::LongName_DownRightVectorBar => "DownRightVectorBar",
        T::LongName_DownTeeArrow => "DownTeeArrow",
        T::LongName_Element => "Element",
        T::LongName_EqualTilde => "EqualTilde",
        T::LongName_Equilibrium => "Equilibrium",
        T::LongName_Equivalent => "Equivalent",
        T::LongName_HumpDownHump => "HumpDownHump",
        T::LongName_HumpEqual => "HumpEqual",
        T::BangEqual | T::EqualEqual | T::Greater | T::GreaterEqual | T::Less | T::LessEqual | T::LongName_Equal | T::LongName_GreaterEqual | T::LongName_GreaterEqualLess | T::LongName_GreaterFullEqual | T::LongName_GreaterGreater | T::LongName_GreaterLess | T::LongName_GreaterSlantEqual | T::LongName_GreaterTilde | T::LongName_LessEqual | T::LongName_LessEqualGreater | T::LongName_LessFullEqual | T::LongName_LessGreater | T::LongName_LessLess | T::LongName_LessSlantEqual | T::LongName_LessTilde | T::LongName_LongEqual | T::LongName_NestedGreaterGreater | T::LongName_NestedLessLess | T::LongName_NotEqual | T::LongName_NotGreater | T::LongName_NotGreaterEqual | T::LongName_NotGreaterFullEqual | T::LongName_NotGreaterGreater | T::LongName_NotGreaterLess | T::LongName_NotGreaterSlantEqual | T::LongName_NotGreaterTilde | T::LongName_NotLess | T::LongName_NotLessEqual | T::LongName_NotLessFullEqual | T::LongName_NotLessGreater | T::LongName_NotLessLess | T::LongName_NotLessSlantEqual | T::LongName_NotLessTilde | T::LongName_NotNestedGreaterGreater | T::LongName_NotNestedLessLess | T::LongName_VectorGreater | T::LongName_VectorGreaterEqual | T::LongName_VectorLess | T::LongName_VectorLessEqual => "InfixInequality",
        T::LongName_Intersection => "Intersection",
        T::LongName_LeftArrow => "LeftArrow",
        T::LongName_LeftArrowBar => "LeftArrowBar",
        T::LongName_LeftArrowRightArrow => "LeftArrowRightArrow",
        T::LongName_LeftDownTeeVector => "LeftDownTeeVector",
        T::LongName_LeftDownVector => "LeftDownVector",
        T::LongName_LeftDownVectorBar => "LeftDownVectorBar",
        T::LongName_LeftRightArrow => "LeftRightArrow",
        T::LongName_LeftRightVector => "LeftRightVector",
        T::LongName_LeftTeeArrow => "LeftTeeArrow",
        T::LongName_LeftTeeVector => "LeftTeeVector",
        T::LongName_LeftTriangle => "LeftTriangle",
        T::LongName_LeftTriangleBar => "LeftTriangleBar",
        T::LongName_LeftTriangleEqual => "LeftTriangleEqual",
        T::LongName_LeftUpDownVector => "LeftUpDownVector",
        T::LongName_LeftUpTeeVector => "LeftUpTeeVector",
        T::LongName_LeftUpVector => "LeftUpVector",
        T::LongName_LeftUpVectorBar => "LeftUpVectorBar",
        T::LongName_LeftVector => "LeftVector",
        T::LongName_LeftVectorBar => "LeftVectorBar",
        T::LongName_LongLeftArrow => "LongLeftArrow",
        T::LongName_LongLeftRightArrow => "LongLeftRightArrow",
        T::LongName_LongRightArrow => "LongRightArrow",
        T::LongName_LowerLeftArrow => "LowerLeftArrow",
        T::LongName_LowerRightArrow => "LowerRightArrow",
        T::ColonColon => "MessageName",
        T::LongName_Nand => "Nand",
        T::StarStar => "NonCommutativeMultiply",
        T::LongName_Nor => "Nor",
        T::LongName_NotCongruent => "NotCongruent",
        T::LongName_NotCupCap => "NotCupCap",
        T::LongName_NotDoubleVerticalBar => "NotDoubleVerticalBar",
        T::LongName_NotElement => "NotElement",
        T::LongName_NotEqualTilde => "NotEqualTilde",
        T::LongName_NotHumpDownHump => "NotHumpDownHump",
        T::LongName_NotHumpEqual => "NotHumpEqual",
        T::LongName_NotLeftTriangle => "NotLeftTriangle",
        T::LongName_NotLeftTriangleBar => "NotLeftTriangleBar",
        T::LongName_NotLeftTriangleEqual => "NotLeftTriangleEqual",
        T::LongName_NotPrecedes => "NotPrecedes",
        T::LongName_NotPrecedesEqual => "NotPrecedesEqual",
        T::LongName_NotPrecedesSlantEqual => "NotPrecedesSlantEqual",
        T::LongName_NotPrecedesTilde => "NotPrecedesTilde",
        T::LongName_NotReverseElement => "NotReverseElement",
        T::LongName_NotRightTriangle => "NotRightTriangle",
        T::LongName_NotRightTriangleBar => "NotRightTriangleBar",
        T::LongName_NotRightTriangleEqual => "NotRightTriangleEqual",
        T::LongName_NotSquareSubset => "NotSquareSubset",
        T::LongName_NotSquareSubsetEqual => "NotSquareSubsetEqual",
        T::LongName_NotSquareSuperset => "NotSquareSuperset",
        T::LongName_NotSquareSupersetEqual => "NotSquareSupersetEqual",
        T::LongName_NotSubset => "NotSubset",
        T::LongName_NotSubsetEqual => "NotSubsetEqual",
        T::LongName_NotSucceeds => "NotSucceeds",
        T::LongName_NotSucceedsEqual => "NotSucceedsEqual",
        T::LongName_NotSucceedsSlantEqual => "NotSucceedsSlantEqual",
        T::LongName_NotSucceedsTilde => "NotSucceedsTilde",
        T::LongName_NotSuperset => "NotSuperset",
        T::LongName_NotSupersetEqual => "NotSupersetEqual",
        T::LongName_NotTilde => "NotTilde",
        T::LongName_NotTildeEqual => "NotTildeEqual",
        T::LongName_NotTildeFullEqual => "NotTildeFullEqual",
        T::LongName_NotTildeTilde => "NotTildeTilde",
        T::LongName_NotVerticalBar => "NotVerticalBar",
        T::BarBar | T::LongName_Or => "Or",
        T::LongName_PermutationProduct => "PermutationProduct",
        T::LongName_ImplicitPlus | T::LongName_Minus | T::Minus | T::Plus => "Plus",
        T::LongName_Precedes => "Precedes",
        T::LongName_PrecedesEqual => "PrecedesEqual",
        T::LongName_PrecedesSlantEqual => "PrecedesSlantEqual",
        T::LongName_PrecedesTilde => "PrecedesTilde",
        T::LongName_Proportion => "Proportion",
        T::LongName_Proportional => "Proportional",
        T::LongName_ReverseElement => "ReverseElement",
        T::LongName_ReverseEquilibrium => "ReverseEquilibrium",
        T::LongName_ReverseUpEquilibrium => "ReverseUpEquilibrium",
        T::LongName_RightArrow => "RightArrow",
        T::LongName_RightArrowBar => "RightArrowBar",
        T::LongName_RightArrowLeftArrow => "RightArrowLeftArrow",
        T::SlashStar => "RightComposition",
        T::LongName_RightDownTeeVector => "RightDownTeeVector",
        T::LongName_RightDownVector => "RightDownVector",
        T::LongName_RightDownVectorBar => "RightDownVectorBar",
        T::LongName_RightTeeArrow => "RightTeeArrow",
        T::LongName_RightTeeVector => "RightTeeVector",
        T::LongName_RightTriangle => "RightTriangle",
        T::LongName_RightTriangleBar => "RightTriangleBar",
        T::LongName_RightTriangleEqual => "RightTriangleEqual",
        T::LongName_RightUpDownVector => "RightUpDownVector",
        T::LongName_RightUpTeeVector => "RightUpTeeVector",
        T::LongName_RightUpVector => "RightUpVector",
        T::LongName_RightUpVectorBar => "RightUpVectorBar",
        T::LongName_RightVector => "RightVector",
        T::LongName_RightVectorBar => "RightVectorBar",
        T::EqualEqualEqual => "SameQ",
        T::LongName_ShortDownArrow => "ShortDownArrow",
        T::LongName_ShortLeftArrow => "ShortLeftArrow",
        T::LongName_ShortRightArrow => "ShortRightArrow",
        T::LongName_ShortUpArrow => "ShortUpArrow",
        T::LongName_SmallCircle => "SmallCircle",
        T::LongName_SquareIntersection => "SquareIntersection",
        T::LongName_SquareSubset => "SquareSubset",
        T::LongName_SquareSubsetEqual => "SquareSubsetEqual",
        T::LongName_SquareSuperset => "SquareSuperset",
        T::LongName_SquareSupersetEqual => "SquareSupersetEqual",
        T::LongName_SquareUnion => "SquareUnion",
        T::LongName_Star => "Star",
        T::TildeTilde => "StringExpression",
        T::LessGreater => "StringJoin",
        T::LongName_Subset => "Subset",
        T::LongName_SubsetEqual => "SubsetEqual",
        T::LongName_Succeeds => "Succeeds",
        T::LongName_SucceedsEqual => "SucceedsEqual",
        T::LongName_SucceedsSlantEqual => "SucceedsSlantEqual",
        T::LongName_SucceedsTilde => "SucceedsTilde",
        T::LongName_Superset => "Superset",
        T::LongName_SupersetEqual => "SupersetEqual",
        T::LongName_TensorProduct => "TensorProduct",
        T::LongName_TensorWedge => "TensorWedge",
        T::LongName_Tilde => "Tilde",
        T::LongName_TildeEqual => "TildeEqual",
        T::LongName_TildeFullEqual => "TildeFullEqual",
        T::LongName_TildeTilde => "TildeTilde",
        T::Fake_ImplicitTimes | T::LongName_InvisibleTimes | T::LongName_Times | T::Star => "Times",
        T::LongName_Union => "Union",
        T::LongName_UnionPlus => "UnionPlus",
        T::EqualBangEqual => "UnsameQ",
        T::LongName_UpArrow => "UpArrow",
        T::LongName_UpArrowBar => "UpArrowBar",
        T::LongName_UpArrowDownArrow => "UpArrowDownArrow",
        T::LongName_UpDownArrow => "UpDownArrow",
        T::LongName_UpEquilibrium => "UpEquilibrium",
        T::LongName_UpTeeArrow => "UpTeeArrow",
        T::LongName_UpperLeftArrow => "UpperLeftArrow",
        T::LongName_UpperRightArrow => "UpperRightArrow",
        T::LongName_Vee => "Vee",
        T::LongName_VerticalBar => "VerticalBar",
        T::LongName_VerticalSeparator => "VerticalSeparator",
        T::LongName_VerticalTilde => "VerticalTilde",
        T::LongName_Wedge => "Wedge",
        T::LongName_Xnor => "Xnor",
        T::LongName_Xor => "Xor",
        _ => "",
    }
}
pub fn postfix(t: T) -> &'static str {
    match t {
        T::LongName_Conjugate => "Conjugate",
        T::LongName_ConjugateTranspose => "ConjugateTranspose",
        T::MinusMinus => "Decrement",
        T::SingleQuote => "Derivative",
        T::Bang => "Factorial",
        T::BangBang => "Factorial2",
        T::Amp => "Function",
        T::LongName_HermitianConjugate => "HermitianConjugate",
        T::PlusPlus => "Increment",
        T::LongName_InvisiblePostfixScriptBase => "InvisiblePostfixScriptBase",
        T::DotDot => "Repeated",
        T::DotDotDot => "RepeatedNull",
        T::LongName_Transpose => "Transpose",
        _ => "",
    }
}
pub fn prefix(t: T) -> &'static str {
    match t {
        T::LongName_CapitalDifferentialD => "CapitalDifferentialD",
        T::LongName_CircleTimes => "CircleTimes",
        T::LongName_ContinuedFractionK => "ContinuedFractionK",
        T::LongName_Coproduct => "Coproduct",
        T::LongName_CubeRoot => "CubeRoot",
        T::LongName_Del => "Del",
        T::LongName_DifferentialD => "DifferentialD",
        T::LongName_Exists => "Exists",
        T::LongName_ExpectationE => "ExpectationE",
        T::LongName_ForAll => "ForAll",
        T::LessLess => "Get",
        T::LongName_InvisiblePrefixScriptBase => "InvisiblePrefixScriptBase",
        T::LongName_Minus | T::Minus => "Minus",
        T::LongName_MinusPlus => "MinusPlus",
        T::Bang | T::LongName_Not => "Not",
        T::LongName_NotExists => "NotExists",
        T::LongName_Piecewise => "Piecewise",
        T::Plus => "Plus",
        T::LongName_PlusMinus => "PlusMinus",
        T::MinusMinus => "PreDecrement",
        T::PlusPlus => "PreIncrement",
        T::LinearSyntax_Bang => "PrefixLinearSyntaxBang",
        T::BangBang => "PrefixNot2",
        T::LongName_ProbabilityPr => "ProbabilityPr",
        T::LongName_Product => "Product",
        T::LongName_Sqrt => "Sqrt",
        T::LongName_Square => "Square",
        T::LongName_Sum => "Sum",
        _ => "",
    }
}
