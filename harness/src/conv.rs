// Generated by scripts/gen_conv.py. Do not edit.
use crate::tree::{T, V};
use lib_ruby_parser::{Loc, Node};

fn l(x: &Loc) -> (usize, usize) { (x.begin, x.end) }

pub fn conv(n: &Node) -> T {
    match n {
        Node::Alias(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Alias");
            t.put("to", V::Node(Box::new(conv(&x.to))));
            t.put("from", V::Node(Box::new(conv(&x.from))));
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::And(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("And");
            t.put("lhs", V::Node(Box::new(conv(&x.lhs))));
            t.put("rhs", V::Node(Box::new(conv(&x.rhs))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::AndAsgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("AndAsgn");
            t.put("recv", V::Node(Box::new(conv(&x.recv))));
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Arg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Arg");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Args(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Args");
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t
        }
        Node::Array(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Array");
            if !x.elements.is_empty() { t.put("elements", V::List(x.elements.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::ArrayPattern(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("ArrayPattern");
            if !x.elements.is_empty() { t.put("elements", V::List(x.elements.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::ArrayPatternWithTail(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("ArrayPatternWithTail");
            if !x.elements.is_empty() { t.put("elements", V::List(x.elements.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::BackRef(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("BackRef");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Begin(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Begin");
            if !x.statements.is_empty() { t.put("statements", V::List(x.statements.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Block(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Block");
            t.put("call", V::Node(Box::new(conv(&x.call))));
            if let Some(v) = &x.args { t.put("args", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::BlockPass(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("BlockPass");
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Blockarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Blockarg");
            if let Some(v) = &x.name { t.put("name", V::Str(v.as_bytes().to_vec())); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            if let Some(v) = &x.name_l { t.put("name_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Break(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Break");
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::CSend(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("CSend");
            t.put("recv", V::Node(Box::new(conv(&x.recv))));
            t.put("method_name", V::Str(x.method_name.as_bytes().to_vec()));
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            t.put("dot_l", V::Loc(l(&x.dot_l)));
            if let Some(v) = &x.selector_l { t.put("selector_l", V::Loc(l(v))); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Case(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Case");
            if let Some(v) = &x.expr { t.put("expr", V::Node(Box::new(conv(v)))); }
            if !x.when_bodies.is_empty() { t.put("when_bodies", V::List(x.when_bodies.iter().map(conv).collect())); }
            if let Some(v) = &x.else_body { t.put("else_body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.else_l { t.put("else_l", V::Loc(l(v))); }
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::CaseMatch(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("CaseMatch");
            t.put("expr", V::Node(Box::new(conv(&x.expr))));
            if !x.in_bodies.is_empty() { t.put("in_bodies", V::List(x.in_bodies.iter().map(conv).collect())); }
            if let Some(v) = &x.else_body { t.put("else_body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.else_l { t.put("else_l", V::Loc(l(v))); }
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Casgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Casgn");
            if let Some(v) = &x.scope { t.put("scope", V::Node(Box::new(conv(v)))); }
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.double_colon_l { t.put("double_colon_l", V::Loc(l(v))); }
            t.put("name_l", V::Loc(l(&x.name_l)));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Cbase(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Cbase");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Class(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Class");
            t.put("name", V::Node(Box::new(conv(&x.name))));
            if let Some(v) = &x.superclass { t.put("superclass", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Complex(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Complex");
            t.put("value", V::Str(x.value.as_bytes().to_vec()));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Const(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Const");
            if let Some(v) = &x.scope { t.put("scope", V::Node(Box::new(conv(v)))); }
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.double_colon_l { t.put("double_colon_l", V::Loc(l(v))); }
            t.put("name_l", V::Loc(l(&x.name_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::ConstPattern(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("ConstPattern");
            t.put("const_", V::Node(Box::new(conv(&x.const_))));
            t.put("pattern", V::Node(Box::new(conv(&x.pattern))));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Cvar(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Cvar");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Cvasgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Cvasgn");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            t.put("name_l", V::Loc(l(&x.name_l)));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Def(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Def");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.args { t.put("args", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("name_l", V::Loc(l(&x.name_l)));
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            if let Some(v) = &x.assignment_l { t.put("assignment_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Defined(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Defined");
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Defs(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Defs");
            t.put("definee", V::Node(Box::new(conv(&x.definee))));
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.args { t.put("args", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("name_l", V::Loc(l(&x.name_l)));
            if let Some(v) = &x.assignment_l { t.put("assignment_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Dstr(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Dstr");
            if !x.parts.is_empty() { t.put("parts", V::List(x.parts.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Dsym(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Dsym");
            if !x.parts.is_empty() { t.put("parts", V::List(x.parts.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::EFlipFlop(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("EFlipFlop");
            if let Some(v) = &x.left { t.put("left", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.right { t.put("right", V::Node(Box::new(conv(v)))); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::EmptyElse(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("EmptyElse");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Encoding(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Encoding");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Ensure(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Ensure");
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.ensure { t.put("ensure", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Erange(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Erange");
            if let Some(v) = &x.left { t.put("left", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.right { t.put("right", V::Node(Box::new(conv(v)))); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::False(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("False");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::File(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("File");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::FindPattern(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("FindPattern");
            if !x.elements.is_empty() { t.put("elements", V::List(x.elements.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Float(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Float");
            t.put("value", V::Str(x.value.as_bytes().to_vec()));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::For(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("For");
            t.put("iterator", V::Node(Box::new(conv(&x.iterator))));
            t.put("iteratee", V::Node(Box::new(conv(&x.iteratee))));
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::ForwardArg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("ForwardArg");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::ForwardedArgs(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("ForwardedArgs");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Gvar(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Gvar");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Gvasgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Gvasgn");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            t.put("name_l", V::Loc(l(&x.name_l)));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Hash(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Hash");
            if !x.pairs.is_empty() { t.put("pairs", V::List(x.pairs.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::HashPattern(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("HashPattern");
            if !x.elements.is_empty() { t.put("elements", V::List(x.elements.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Heredoc(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Heredoc");
            if !x.parts.is_empty() { t.put("parts", V::List(x.parts.iter().map(conv).collect())); }
            t.put("heredoc_body_l", V::Loc(l(&x.heredoc_body_l)));
            t.put("heredoc_end_l", V::Loc(l(&x.heredoc_end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::IFlipFlop(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("IFlipFlop");
            if let Some(v) = &x.left { t.put("left", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.right { t.put("right", V::Node(Box::new(conv(v)))); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::If(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("If");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            if let Some(v) = &x.if_true { t.put("if_true", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.if_false { t.put("if_false", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            if let Some(v) = &x.else_l { t.put("else_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::IfGuard(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("IfGuard");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::IfMod(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("IfMod");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            if let Some(v) = &x.if_true { t.put("if_true", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.if_false { t.put("if_false", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::IfTernary(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("IfTernary");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            t.put("if_true", V::Node(Box::new(conv(&x.if_true))));
            t.put("if_false", V::Node(Box::new(conv(&x.if_false))));
            t.put("question_l", V::Loc(l(&x.question_l)));
            t.put("colon_l", V::Loc(l(&x.colon_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::InPattern(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("InPattern");
            t.put("pattern", V::Node(Box::new(conv(&x.pattern))));
            if let Some(v) = &x.guard { t.put("guard", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Index(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Index");
            t.put("recv", V::Node(Box::new(conv(&x.recv))));
            if !x.indexes.is_empty() { t.put("indexes", V::List(x.indexes.iter().map(conv).collect())); }
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::IndexAsgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("IndexAsgn");
            t.put("recv", V::Node(Box::new(conv(&x.recv))));
            if !x.indexes.is_empty() { t.put("indexes", V::List(x.indexes.iter().map(conv).collect())); }
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Int(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Int");
            t.put("value", V::Str(x.value.as_bytes().to_vec()));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Irange(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Irange");
            if let Some(v) = &x.left { t.put("left", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.right { t.put("right", V::Node(Box::new(conv(v)))); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Ivar(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Ivar");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Ivasgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Ivasgn");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            t.put("name_l", V::Loc(l(&x.name_l)));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::KwBegin(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("KwBegin");
            if !x.statements.is_empty() { t.put("statements", V::List(x.statements.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Kwarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Kwarg");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("name_l", V::Loc(l(&x.name_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Kwargs(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Kwargs");
            if !x.pairs.is_empty() { t.put("pairs", V::List(x.pairs.iter().map(conv).collect())); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Kwnilarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Kwnilarg");
            t.put("name_l", V::Loc(l(&x.name_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Kwoptarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Kwoptarg");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("default", V::Node(Box::new(conv(&x.default))));
            t.put("name_l", V::Loc(l(&x.name_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Kwrestarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Kwrestarg");
            if let Some(v) = &x.name { t.put("name", V::Str(v.as_bytes().to_vec())); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            if let Some(v) = &x.name_l { t.put("name_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Kwsplat(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Kwsplat");
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Lambda(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Lambda");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Line(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Line");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Lvar(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Lvar");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Lvasgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Lvasgn");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            t.put("name_l", V::Loc(l(&x.name_l)));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Masgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Masgn");
            t.put("lhs", V::Node(Box::new(conv(&x.lhs))));
            t.put("rhs", V::Node(Box::new(conv(&x.rhs))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchAlt(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchAlt");
            t.put("lhs", V::Node(Box::new(conv(&x.lhs))));
            t.put("rhs", V::Node(Box::new(conv(&x.rhs))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchAs(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchAs");
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("as_", V::Node(Box::new(conv(&x.as_))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchCurrentLine(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchCurrentLine");
            t.put("re", V::Node(Box::new(conv(&x.re))));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchNilPattern(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchNilPattern");
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("name_l", V::Loc(l(&x.name_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchPattern(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchPattern");
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("pattern", V::Node(Box::new(conv(&x.pattern))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchPatternP(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchPatternP");
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("pattern", V::Node(Box::new(conv(&x.pattern))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchRest(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchRest");
            if let Some(v) = &x.name { t.put("name", V::Node(Box::new(conv(v)))); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchVar(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchVar");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("name_l", V::Loc(l(&x.name_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::MatchWithLvasgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("MatchWithLvasgn");
            t.put("re", V::Node(Box::new(conv(&x.re))));
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Mlhs(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Mlhs");
            if !x.items.is_empty() { t.put("items", V::List(x.items.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Module(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Module");
            t.put("name", V::Node(Box::new(conv(&x.name))));
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Next(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Next");
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Nil(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Nil");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::NthRef(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("NthRef");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Numblock(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Numblock");
            t.put("call", V::Node(Box::new(conv(&x.call))));
            t.put("numargs", V::Num(x.numargs as u64));
            t.put("body", V::Node(Box::new(conv(&x.body))));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::OpAsgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("OpAsgn");
            t.put("recv", V::Node(Box::new(conv(&x.recv))));
            t.put("operator", V::Str(x.operator.as_bytes().to_vec()));
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Optarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Optarg");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("default", V::Node(Box::new(conv(&x.default))));
            t.put("name_l", V::Loc(l(&x.name_l)));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Or(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Or");
            t.put("lhs", V::Node(Box::new(conv(&x.lhs))));
            t.put("rhs", V::Node(Box::new(conv(&x.rhs))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::OrAsgn(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("OrAsgn");
            t.put("recv", V::Node(Box::new(conv(&x.recv))));
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Pair(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Pair");
            t.put("key", V::Node(Box::new(conv(&x.key))));
            t.put("value", V::Node(Box::new(conv(&x.value))));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Pin(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Pin");
            t.put("var", V::Node(Box::new(conv(&x.var))));
            t.put("selector_l", V::Loc(l(&x.selector_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Postexe(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Postexe");
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Preexe(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Preexe");
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Procarg0(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Procarg0");
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Rational(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Rational");
            t.put("value", V::Str(x.value.as_bytes().to_vec()));
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Redo(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Redo");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::RegOpt(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("RegOpt");
            if let Some(v) = &x.options { t.put("options", V::Str(v.as_bytes().to_vec())); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Regexp(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Regexp");
            if !x.parts.is_empty() { t.put("parts", V::List(x.parts.iter().map(conv).collect())); }
            if let Some(v) = &x.options { t.put("options", V::Node(Box::new(conv(v)))); }
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Rescue(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Rescue");
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            if !x.rescue_bodies.is_empty() { t.put("rescue_bodies", V::List(x.rescue_bodies.iter().map(conv).collect())); }
            if let Some(v) = &x.else_ { t.put("else_", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.else_l { t.put("else_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::RescueBody(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("RescueBody");
            if let Some(v) = &x.exc_list { t.put("exc_list", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.exc_var { t.put("exc_var", V::Node(Box::new(conv(v)))); }
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.assoc_l { t.put("assoc_l", V::Loc(l(v))); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Restarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Restarg");
            if let Some(v) = &x.name { t.put("name", V::Str(v.as_bytes().to_vec())); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            if let Some(v) = &x.name_l { t.put("name_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Retry(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Retry");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Return(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Return");
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::SClass(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("SClass");
            t.put("expr", V::Node(Box::new(conv(&x.expr))));
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Self_(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Self_");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Send(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Send");
            if let Some(v) = &x.recv { t.put("recv", V::Node(Box::new(conv(v)))); }
            t.put("method_name", V::Str(x.method_name.as_bytes().to_vec()));
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            if let Some(v) = &x.dot_l { t.put("dot_l", V::Loc(l(v))); }
            if let Some(v) = &x.selector_l { t.put("selector_l", V::Loc(l(v))); }
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            if let Some(v) = &x.operator_l { t.put("operator_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Shadowarg(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Shadowarg");
            t.put("name", V::Str(x.name.as_bytes().to_vec()));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Splat(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Splat");
            if let Some(v) = &x.value { t.put("value", V::Node(Box::new(conv(v)))); }
            t.put("operator_l", V::Loc(l(&x.operator_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Str(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Str");
            t.put("value", V::Str(x.value.as_raw().to_vec()));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Super(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Super");
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Sym(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Sym");
            t.put("name", V::Str(x.name.as_raw().to_vec()));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::True(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("True");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Undef(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Undef");
            if !x.names.is_empty() { t.put("names", V::List(x.names.iter().map(conv).collect())); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::UnlessGuard(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("UnlessGuard");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Until(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Until");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::UntilPost(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("UntilPost");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            t.put("body", V::Node(Box::new(conv(&x.body))));
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::When(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("When");
            if !x.patterns.is_empty() { t.put("patterns", V::List(x.patterns.iter().map(conv).collect())); }
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::While(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("While");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            if let Some(v) = &x.body { t.put("body", V::Node(Box::new(conv(v)))); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::WhilePost(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("WhilePost");
            t.put("cond", V::Node(Box::new(conv(&x.cond))));
            t.put("body", V::Node(Box::new(conv(&x.body))));
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::XHeredoc(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("XHeredoc");
            if !x.parts.is_empty() { t.put("parts", V::List(x.parts.iter().map(conv).collect())); }
            t.put("heredoc_body_l", V::Loc(l(&x.heredoc_body_l)));
            t.put("heredoc_end_l", V::Loc(l(&x.heredoc_end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Xstr(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Xstr");
            if !x.parts.is_empty() { t.put("parts", V::List(x.parts.iter().map(conv).collect())); }
            t.put("begin_l", V::Loc(l(&x.begin_l)));
            t.put("end_l", V::Loc(l(&x.end_l)));
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::Yield(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("Yield");
            if !x.args.is_empty() { t.put("args", V::List(x.args.iter().map(conv).collect())); }
            t.put("keyword_l", V::Loc(l(&x.keyword_l)));
            if let Some(v) = &x.begin_l { t.put("begin_l", V::Loc(l(v))); }
            if let Some(v) = &x.end_l { t.put("end_l", V::Loc(l(v))); }
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
        Node::ZSuper(x) => {
            #[allow(unused_mut)]
            let mut t = T::new("ZSuper");
            t.put("expression_l", V::Loc(l(&x.expression_l)));
            t
        }
    }
}
