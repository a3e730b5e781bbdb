P='compiler/src/emitter/expression.rs'
sub(P,'''    if resolved_target == "END" {
        out.push(json!("end"));
        return;
    }

    if resolved_target == "DONE" {
        out.push(json!("done"));
        return;
    }

    if !divert.arguments.is_empty() {
''','''    match resolved_target.as_str() {
        "END" => {
            out.push(json!("end"));
            return;
        }
        "DONE" => {
            out.push(json!("done"));
            return;
        }
        _ => {}
    }

    if !divert.arguments.is_empty() {
''')
sub(P,'''    if scope.is_variable_divert(&resolved_target, context) {
        out.push(json!({"->": resolved_target, "var": true}));
    } else {
        out.push(json!({"->": resolved_target}));
    }
}
''','''    let token = if scope.is_variable_divert(&resolved_target, context) {
        json!({"->": resolved_target, "var": true})
    } else {
        json!({"->": resolved_target})
    };
    out.push(token);
}
''')
sub(P,'''            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
            out.push(json!("/ev"));
            if is_param {
                out.push(json!({"temp=": variable_name, "re": true}));
            } else {
                out.push(json!({"VAR=": variable_name, "re": true}));
            }
            if expression_has_function_call(expression) {
                out.push(json!("\\n"));
            }
''','''            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
            out.push(json!("/ev"));
            out.push(reassignment(variable_name, is_param));
            if expression_has_function_call(expression) {
                out.push(json!("\\n"));
            }
''')
sub(P,'''fn emit_assignment(
''','''fn reassignment(variable_name: &str, is_param: bool) -> Value {
    if is_param {
        json!({"temp=": variable_name, "re": true})
    } else {
        json!({"VAR=": variable_name, "re": true})
    }
}

fn emit_assignment(
''')
P='compiler/src/emitter/context.rs'
sub(P,'''        if self.child_flow_names.contains(target) && self.top_flow_name.is_some() {
            return format!("{}.{target}", self.top_flow_name.as_deref().unwrap());
        }

        // Sibling stitch: target is a stitch of the same parent knot
        if self.sibling_flow_names.contains(target) && self.top_flow_name.is_some() {
            return format!("{}.{target}", self.top_flow_name.as_deref().unwrap());
        }
''','''        if let Some(top) = self.top_flow_name.as_deref()
            && (self.child_flow_names.contains(target) || self.sibling_flow_names.contains(target))
        {
            return format!("{top}.{target}");
        }
''')
sub(P,'''        if target == "END" || target == "DONE" {
            return target.to_owned();
        }

        if let Some(choice_target) = self.resolve_qualified_choice_label(target, context) {
            return choice_target;
        }
''','''        if matches!(target, "END" | "DONE") {
            return target.to_owned();
        }

        match self.resolve_qualified_choice_label(target, context) {
            Some(choice_target) => return choice_target,
            None => {}
        }
''')
P='compiler/src/parser/sequence.rs'
sub(P,'''    if !content.starts_with('{') || !content.contains(':') {
        return false;
    }

    let Some(inner) = content.strip_prefix('{') else {
        return false;
    };
    let Some((head, _)) = inner.split_once(':') else {
        return false;
    };

    parse_sequence_mode(head.trim()).is_ok()
''','''    content
        .strip_prefix('{')
        .and_then(|inner| inner.split_once(':'))
        .is_some_and(|(head, _)| parse_sequence_mode(head.trim()).is_ok())
''')
sub(P,'''        if trimmed == "}" {
            let had_newline = body_line.had_newline;
            *line_index += 1;
            let mut result = vec![Node::Sequence(Sequence { mode, branches })];
            if had_newline {
                result.push(Node::Newline);
            }
            return Ok(result);
        }
''','''        if trimmed == "}" {
            *line_index += 1;
            let mut result = vec![Node::Sequence(Sequence { mode, branches })];
            if body_line.had_newline {
                result.push(Node::Newline);
            }
            return Ok(result);
        }
''')
P='compiler/src/inline.rs'
sub(P,'''    let divert = rest.strip_prefix("->")?.trim();
    if divert.is_empty() {
        None
    } else {
        Some((text, divert))
    }
}
''','''    let divert = rest.strip_prefix("->").map(str::trim)?;
    (!divert.is_empty()).then_some((text, divert))
}
''')
sub(P,'''    if let Some((text, divert_part)) = split_inline_divert(input) {
        return Ok((text.trim_end(), Some(parse_divert(divert_part)?)));
    }

    Ok((input, None))
''','''    let Some((text, divert_part)) = split_inline_divert(input) else {
        return Ok((input, None));
    };
    let divert = parse_divert(divert_part)?;
    Ok((text.trim_end(), Some(divert)))
''')
P='compiler/src/parser/statement.rs'
sub(P,'''        let (gather_label, gather_content) = if gather_content.starts_with('(') {
            // Brackets around anything but a name are part of the text.
            if let Some(end) = gather_content.find(')')
                && expression::is_identifier(gather_content[1..end].trim())
            {
                let label = gather_content[1..end].trim().to_owned();
                let rest = gather_content[end + 1..].trim_start();
                (Some(label), rest)
            } else {
                (None, gather_content)
            }
        } else {
            (None, gather_content)
        };
''','''        let (gather_label, gather_content) = if gather_content.starts_with('(')
            && let Some(end) = gather_content.find(')')
            && expression::is_identifier(gather_content[1..end].trim())
        {
            let label = gather_content[1..end].trim().to_owned();
            let rest = gather_content[end + 1..].trim_start();
            (Some(label), rest)
        } else {
            (None, gather_content)
        };
''')
sub(P,'''            let choice_nodes = match choice_stmt {
                ParsedStatement::Nodes(ns) => ns,
                other => return Ok(other),
            };
            let mut result = vec![Node::GatherPoint];
''','''            let ParsedStatement::Nodes(choice_nodes) = choice_stmt else {
                return Ok(choice_stmt);
            };
            let mut result = vec![Node::GatherPoint];
''')
