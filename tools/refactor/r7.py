P='compiler/src/emitter/conditional.rs'
# flags as a sum over a table
sub(P,'''    let mut flags = 0;
    if !choice.conditions.is_empty() {
        flags |= 1;
    }
    if choice.has_start_content {
        flags |= 2;
    }
''','''    let mut flags = if choice.conditions.is_empty() { 0 } else { 1 };
    if choice.has_start_content {
        flags |= 2;
    }
''')
# shared helper
sub(P,'''fn branch_has_terminal_content(nodes: &[Node]) -> bool {
    nodes
        .iter()
        .rev()
        .find(|node| !matches!(node, Node::Newline))
        .is_some_and(node_is_terminal)
}
''','''fn last_content(nodes: &[Node]) -> Option<&Node> {
    nodes.iter().rev().find(|node| !matches!(node, Node::Newline))
}

fn branch_has_terminal_content(nodes: &[Node]) -> bool {
    match last_content(nodes) {
        Some(node) => node_is_terminal(node),
        None => false,
    }
}
''')
sub(P,'''    nodes
        .iter()
        .rev()
        .find(|node| !matches!(node, Node::Newline))
        .is_some_and(|node| {
            matches!(
                node,
                Node::Divert(Divert { target, .. }) if target != "END" && target != "DONE"
            )
        })
''','''    last_content(nodes).is_some_and(|node| match node {
        Node::Divert(d) => !(d.target == "END" || d.target == "DONE"),
        _ => false,
    })
''')
sub(P,'''    for (branch_condition, _) in branches.iter() {
        let cond_tokens = if let Some(cond) = branch_condition {
            let mut tokens = Vec::new();
            emit_condition(cond, &mut tokens, scope, context)?;
            Some(tokens)
        } else {
            None
        };
        cond_tokens_list.push(cond_tokens);
    }
''','''    for (branch_condition, _) in branches.iter() {
        let Some(cond) = branch_condition else {
            cond_tokens_list.push(None);
            continue;
        };
        let mut tokens = Vec::new();
        emit_condition(cond, &mut tokens, scope, context)?;
        cond_tokens_list.push(Some(tokens));
    }
''')
P='compiler/src/emitter/choice_threaded.rs'
sub(P,'''    if has_nested_choices || branch_has_terminal_content(nodes) {
        return None;
    }

    if suppress_on_explicit_transfer && branch_has_explicit_flow_transfer(nodes) {
        return None;
    }

    if let Some(path) = fallback_path
        && self_path != Some(path)
    {
        return Some(json!({"->": path}));
    }

    match no_fallback {
''','''    let suppressed = has_nested_choices
        || branch_has_terminal_content(nodes)
        || (suppress_on_explicit_transfer && branch_has_explicit_flow_transfer(nodes));
    if suppressed {
        return None;
    }

    match fallback_path {
        Some(path) if self_path != Some(path) => return Some(json!({"->": path})),
        _ => {}
    }

    match no_fallback {
''')
P='compiler/src/parser/choice.rs'
sub(P,'''    let mut nesting_level: usize = 1;
    let mut remainder = after_first_marker;
    while let Some(rest) = remainder.strip_prefix(|c| c == '*' || c == '+') {
        remainder = rest.trim_start();
        nesting_level += 1;
    }
    if nesting_level > MAX_NESTING {
''','''    let mut nesting_level: usize = 1;
    let mut remainder = after_first_marker;
    loop {
        let Some(rest) = remainder.strip_prefix(|c| c == '*' || c == '+') else {
            break;
        };
        nesting_level += 1;
        remainder = rest.trim_start();
    }
    if nesting_level > MAX_NESTING {
''')
sub(P,'''        if !absorbed_gather
            && let Some(body_choice_level) = choice_marker_nesting_level(body_trimmed_start)
            && body_choice_level <= nesting_level
        {
            break;
        }
''','''        if !absorbed_gather {
            match choice_marker_nesting_level(body_trimmed_start) {
                Some(body_choice_level) if body_choice_level <= nesting_level => break,
                _ => {}
            }
        }
''')
sub(P,'''        if gather_level > 0 && body_line.indent <= choice_indent {
            break;
        }

        // Non-gather line at or shallower than our indent:
        // - If we haven't absorbed a same-level gather yet, this is a sibling — stop.
        // - If we have absorbed a gather, it's the post-gather continuation — include it.
        if gather_level == 0 && body_line.indent <= choice_indent && !absorbed_gather {
            break;
        }
''','''        if body_line.indent <= choice_indent && (gather_level > 0 || !absorbed_gather) {
            break;
        }
''')
P='compiler/src/inline.rs'
sub(P,'''    let (mode, explicit_mode, rest) = if let Some(r) = content.strip_prefix('&') {
        (SequenceMode::Cycle, true, r)
    } else if let Some(r) = content.strip_prefix('!') {
        (SequenceMode::Once, true, r)
    } else if let Some(r) = content.strip_prefix('~') {
        (SequenceMode::Shuffle, true, r)
    } else {
        (SequenceMode::Stopping, false, content)
    };

    let parts = split_top_level_pipe(rest);
    // A sequence needs at least 2 branches, UNLESS an explicit mode prefix was
    // given (e.g. {! ->tunnel->}), in which case a single branch is valid.
    if parts.len() < 2 && !explicit_mode {
        return Ok(None);
    }
    if parts.is_empty() {
        return Ok(None);
    }

    let mut branches = Vec::new();
    for part in parts {
        branches.push(tokenize_inline_content(part.trim())?);
    }

    Ok(Some(Sequence { mode, branches }))
''','''    let (mode, explicit_mode, rest) = sequence_mode_of(content);

    let parts = split_top_level_pipe(rest);
    if (parts.len() < 2 && !explicit_mode) || parts.is_empty() {
        return Ok(None);
    }

    let branches = parts
        .into_iter()
        .map(|part| tokenize_inline_content(part.trim()))
        .collect::<Result<Vec<_>, _>>()?;

    Ok(Some(Sequence { mode, branches }))
''')
sub(P,'''pub fn parse_inline_sequence(''','''fn sequence_mode_of(content: &str) -> (SequenceMode, bool, &str) {
    if let Some(r) = content.strip_prefix('&') {
        return (SequenceMode::Cycle, true, r);
    }
    if let Some(r) = content.strip_prefix('!') {
        return (SequenceMode::Once, true, r);
    }
    if let Some(r) = content.strip_prefix('~') {
        return (SequenceMode::Shuffle, true, r);
    }
    (SequenceMode::Stopping, false, content)
}

pub fn parse_inline_sequence(''')
P='compiler/src/parser/conditional.rs'
sub(P,'''        let when_false = if branches.len() > 1 {
            Some(tokenize_inline_content(branches[1].trim_end())?)
        } else {
            None
        };

        let mut nodes = vec![Node::Conditional {
            condition,
            when_true,
            when_false,
        }];

        if line.had_newline {
            nodes.push(Node::Newline);
        }

        return Ok(nodes);
''','''        let mut when_false = None;
        if branches.len() > 1 {
            when_false = Some(tokenize_inline_content(branches[1].trim_end())?);
        }

        let conditional = Node::Conditional {
            condition,
            when_true,
            when_false,
        };

        if line.had_newline {
            return Ok(vec![conditional, Node::Newline]);
        }

        return Ok(vec![conditional]);
''')
sub(P,'''        if first_body.starts_with('-')
            && !first_body.starts_with("->")
            && !first_body.starts_with("- else:")
        {
            // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
            let branch_content = first_body.trim_start_matches('-').trim_start();
            branch_content.contains(':') && !branch_content.starts_with("->")
        } else {
            false
        }
''','''        let branch_content = first_body.trim_start_matches('-').trim_start();
        first_body.starts_with('-')
            && !first_body.starts_with("->")
            && !first_body.starts_with("- else:")
            && branch_content.contains(':')
            && !branch_content.starts_with("->")
''')
