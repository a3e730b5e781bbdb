"""Development mutants: (name, [properties expected to object], [(file, old, new)]) and behaviour-preserving edits."""
P = "runtime/src/story/progress.rs"
SS = "runtime/src/story_state.rs"
ER = "runtime/src/story/errors.rs"
PL = "rinklecate/src/player.rs"
MUTANTS = []
REFACTORS = []


def M(name, props, *edits, n=1):
    MUTANTS.append((name, props.split(), list(edits), n))


def R(name, props, *edits, n=1):
    REFACTORS.append((name, props.split(), list(edits), n))


# ---- C13
M("c13-warn-not-cleared", "C13", (SS, "        self.current_errors.clear();\n        self.current_warnings.clear();", "        self.current_errors.clear();"))
M("c13-deliver-skip", "C13", (P, "for err in self.get_state().get_current_warnings() {", "for err in self.get_state().get_current_warnings().iter().skip(1) {"))
M("c13-type-swap", "C13", (P, "on_err.borrow_mut().error(err, ErrorType::Warning);", "on_err.borrow_mut().error(err, ErrorType::Error);"))
M("c13-warn-only-if-no-error", "C13", (P, "                    if self.get_state().has_warning() {\n                        for err in", "                    else if self.get_state().has_warning() {\n                        for err in"))
M("c13-paused-delivery", "C13", (P, "        if !self.async_continue_active\n            && (self.get_state().has_error() || self.get_state().has_warning())\n", "        if self.get_state().has_error() || self.get_state().has_warning()\n"))
M("c13-warn-err", "C13", (P, "                None => {\n                    self.warnings_reported = true;\n\n                    if self.get_state().has_error() {", "                None => {\n                    self.warnings_reported = true;\n\n                    if self.get_state().has_error() || self.get_state().has_warning() {"))
M("c13-nohandler-clears", "C13", (P, "                        return Err(StoryError::InvalidStoryState(sb));", "                        self.reset_errors();\n                        return Err(StoryError::InvalidStoryState(sb));"))
M("c13-error-continue", "C13", (P, "                    self.add_error(e.get_message(), false);\n                    break;", "                    self.add_error(e.get_message(), false);"))
M("c13-error-as-warning", "C13", (P, "                    self.add_error(e.get_message(), false);\n                    break;", "                    self.add_error(e.get_message(), true);\n                    break;"))
M("c13-no-forceend", "C13", (ER, "        if !is_warning {\n            self.get_state_mut().force_end();\n        }", ""))
M("c13-can-continue", "C13", (SS, "!self.get_current_pointer().is_null() && !self.has_error()", "!self.get_current_pointer().is_null()"))
M("c13-copy-lost", "C13", (SS, "            copy.current_warnings = self.current_warnings.clone();", ""))
M("c13-copy-cross", "C13", (SS, "        if self.has_warning() {\n            copy", "        if self.has_error() {\n            copy"))
M("c13-text-first", "C13", (ER, '            format!("RUNTIME {}: {}", error_type_str, message)', '            format!("RUNTIME {}", error_type_str)'))
M("c13-tool-swap", "C13", (PL, "self.errors.push(message.to_owned()),\n", "self.warnings.push(message.to_owned()),\n"))
M("c13-fresh-clear", "C13", (P, "            if self.warnings_reported {\n                self.get_state_mut().reset_warnings();", "            if self.warnings_reported {"))

R("r13-helper", "", (P, "                    if self.get_state().has_error() {\n                        for err in self.get_state().get_current_errors() {\n                            on_err.borrow_mut().error(err, ErrorType::Error);\n                        }\n                    }\n\n                    if self.get_state().has_warning() {\n                        for err in self.get_state().get_current_warnings() {\n                            on_err.borrow_mut().error(err, ErrorType::Warning);\n                        }\n                    }\n",
   "                    let mut h = on_err.borrow_mut();\n                    Self::hand_over(&mut *h, self.get_state().get_current_errors(), ErrorType::Error);\n                    Self::hand_over(&mut *h, self.get_state().get_current_warnings(), ErrorType::Warning);\n                    drop(h);\n"),
  (P, "    pub(crate) fn continue_single_step(", "    fn hand_over(h: &mut dyn crate::story::errors::ErrorHandler, l: &[String], ty: ErrorType) {\n        let mut i = 0;\n        while i < l.len() {\n            h.error(&l[i], ty);\n            i += 1;\n        }\n    }\n\n    pub(crate) fn continue_single_step("))
R("r13-ifs", "", (P, "        if !self.async_continue_active\n            && (self.get_state().has_error() || self.get_state().has_warning())\n        {\n            match &self.on_error {",
   "        let complete = !self.async_continue_active;\n        let pending = self.get_state().has_error() || self.get_state().has_warning();\n        if complete && pending {\n            match &self.on_error {"))
R("r13-reset", "", (SS, "        self.current_errors.clear();\n        self.current_warnings.clear();", "        self.current_warnings = Vec::new();\n        self.current_errors = Vec::new();"))
R("r13-adderror", "", (SS, "        if !is_warning {\n            self.current_errors.push(message);\n        } else {\n            self.current_warnings.push(message);\n        }", "        let list = if is_warning { &mut self.current_warnings } else { &mut self.current_errors };\n        list.push(message);"))
R("r13-stepmatch", "", (P, "            match self.continue_single_step() {\n                Ok(r) => output_stream_ends_in_newline = r,\n                Err(e) => {\n                    self.add_error(e.get_message(), false);\n                    break;\n                }\n            }", "            let r = self.continue_single_step();\n            if let Err(e) = &r {\n                let m = e.get_message();\n                self.add_error(m, false);\n                break;\n            }\n            output_stream_ends_in_newline = r.unwrap();"))

# C14
JS = "runtime/src/json/json_read_stream.rs"
JT = "runtime/src/json/json_tokenizer.rs"
JR = "runtime/src/json/json_read.rs"
M("c14-temp-decl", "C14", (JS, '                    let _ = tok.read_boolean()?;\n                    is_new_decl = false;', '                    is_new_decl = !tok.read_boolean()? && !is_global_var;'))
M("c14-cond", "C14", (JS, '                    } else if prop == "c" {\n                        conditional = true;', '                    } else if prop == "c" && !pushes_to_stack {\n                        conditional = true;'))
M("c14-ws", "C14", (JT, '''                '"' => break, // End of the quoted string''', '''                '"' if !result.ends_with('\\\\') => break, // End of the quoted string'''))
M("c14-num", "C14", (JT, 'Ok(num) if num.is_finite() => Ok(Number::Float(num as f32)),', 'Ok(num) if num.is_finite() && num.fract() == 0.0 => Ok(Number::Int(num as i32)),\n            Ok(num) if num.is_finite() => Ok(Number::Float(num as f32)),'))
M("c14-name", "C14", (JS, '        if n.is_some() {\n            name = n;\n        }', '        if name.is_none() {\n            name = n;\n        }'))
M("c14-serde-flag", "C14", (JR, 'conditional = true', 'conditional = pushes_to_stack'))
M("c14-surr", "C14", (JT, '(0xd800..0xdc00).contains', '(0xd800..0xdb00).contains'))
R("r14-match", "", (JS, '''            if prop == "->" {
                is_divert = true;
            } else if prop == "f()" {
                is_divert = true;
                pushes_to_stack = true;
                div_push_type = PushPopType::Function;
            } else if prop == "->t->" {
                is_divert = true;
                pushes_to_stack = true;
                div_push_type = PushPopType::Tunnel;
            } else if prop == "x()" {
                is_divert = true;
                external = true;
                pushes_to_stack = false;
                div_push_type = PushPopType::Function;
            }
''', '''            match prop.as_str() {
                "->" => is_divert = true,
                "f()" => {
                    is_divert = true;
                    pushes_to_stack = true;
                }
                "->t->" => {
                    is_divert = true;
                    pushes_to_stack = true;
                    div_push_type = PushPopType::Tunnel;
                }
                "x()" => {
                    is_divert = true;
                    external = true;
                }
                _ => {}
            }
'''))
R("r14-helper", "", (JS, '''                let mut flags = 0;
                let path_string_on_choice = prop_value.as_str().ok_or_else(bad_value)?;

                if tok.peek()? == ',' {
                    tok.expect(',')?;
                    tok.expect_obj_key("flg")?;
                    flags = tok.read_number()?.as_integer().ok_or_else(bad_value)?;
                }

                tok.expect('}')?;
''', '''                let path_string_on_choice = prop_value.as_str().ok_or_else(bad_value)?;
                let flags = read_optional_integer(tok, "flg", 0)?;
                tok.expect('}')?;
'''), (JS, '''                let mut contex_index = -1;

                if tok.peek()? == ',' {
                    tok.expect(',')?;
                    tok.expect_obj_key("ci")?;
                    contex_index = tok.read_number()?.as_integer().ok_or_else(bad_value)?;
                }
''', '''                let contex_index = read_optional_integer(tok, "ci", -1)?;
'''), (JS, 'fn parse_list(', '''fn read_optional_integer(
    tok: &mut JsonTokenizer,
    key: &str,
    default: i32,
) -> Result<i32, StoryError> {
    if tok.peek()? != ',' {
        return Ok(default);
    }

    tok.expect(',')?;
    tok.expect_obj_key(key)?;
    tok.read_number()?.as_integer().ok_or_else(bad_value)
}

fn parse_list('''))
R("r14-assign", "", (JS, '''            let mut is_var_ass = false;
            let mut is_global_var = false;

            if prop == "VAR=" {
                is_var_ass = true;
                is_global_var = true;
            } else if prop == "temp=" {
                is_var_ass = true;
                is_global_var = false;
            }

            if is_var_ass {''', '''            if prop == "VAR=" || prop == "temp=" {
                let is_global_var = prop == "VAR=";'''))
R("r14-list", "", (JS, '''    let mut list_content: BTreeMap<String, i32> = BTreeMap::new();

    while tok.peek()? != '}' {
        let key = tok.read_obj_key()?;
        let value = tok.read_number()?.as_integer().ok_or_else(bad_value)?;
        list_content.insert(key, value);

        if tok.peek()? != '}' {
            tok.expect(',')?;
        }
    }

    tok.expect('}')?;
''', '''    let mut list_content: BTreeMap<String, i32> = BTreeMap::new();

    loop {
        if tok.peek()? == '}' {
            break;
        }

        let key = tok.read_obj_key()?;
        let number = tok.read_number()?;
        list_content.insert(key, number.as_integer().ok_or_else(bad_value)?);

        if tok.peek()? != '}' {
            tok.expect(',')?;
        }
    }

    tok.expect('}')?;
'''))
R("r14-tok", "", (JT, '''            match self.read()? {
                '\\\\' => {
                    let c = self.read_escape()?;
                    result.push(c);
                }
                '"' => break, // End of the quoted string
                c => result.push(c),
            }
''', '''            let c = self.read()?;
            if c == '"' {
                break;
            }
            result.push(if c == '\\\\' { self.read_escape()? } else { c });
'''))
R("r14-readvalue", "", (JT, '''            '"' => {
                let s = self.read_string()?;
                Ok(JsonValue::String(s))
            }
            't' | 'f' => {
                let b = self.read_boolean()?;
                Ok(JsonValue::Boolean(b))
            }
            'n' => {
                self.read_null()?;
                Ok(JsonValue::Null)
            }
            _ => {
                let n = self.read_number()?;
                Ok(JsonValue::Number(n))
            }''', '''            '"' => self.read_string().map(JsonValue::String),
            't' | 'f' => Ok(JsonValue::Boolean(self.read_boolean()?)),
            'n' => self.read_null().map(|_| JsonValue::Null),
            _ => Ok(JsonValue::Number(self.read_number()?)),'''))
R("r14-parse", "", (JS, '''    if version > INK_VERSION_CURRENT {
        return Err(''', '''    let too_new = INK_VERSION_CURRENT < version;
    if too_new {
        return Err('''), (JS, '''    let main_content_container = main_content_container.into_any().downcast::<Container>();

    if main_content_container.is_err() {
        return Err(StoryError::BadJson(
            "Root node for ink is not a container?".to_owned(),
        ));
    };

    let main_content_container = main_content_container.unwrap(); // unwrap: checked for err above
''', '''    let main_content_container = match main_content_container.into_any().downcast::<Container>() {
        Ok(c) => c,
        Err(_) => {
            return Err(StoryError::BadJson(
                "Root node for ink is not a container?".to_owned(),
            ));
        }
    };
'''))
R("r14-serde", "", (JR, """                let mut var_divert_name: Option<String> = None;
                let mut target_path: Option<String> = None;

                prop_value = obj.get("var");

                if prop_value.is_some() {
                    var_divert_name = Some(target);
                } else {
                    target_path = Some(target);
                }
""", """                let (var_divert_name, target_path) = if obj.contains_key("var") {
                    (Some(target), None)
                } else {
                    (None, Some(target))
                };
"""), (JR, """            let mut is_var_ass = false;
            let mut is_global_var = false;

            let mut prop_value = obj.get("VAR=");
            match prop_value {
                Some(_) => {
                    is_var_ass = true;
                    is_global_var = true;
                }
                None => {
                    prop_value = obj.get("temp=");
                    if prop_value.is_some() {
                        is_var_ass = true;
                        is_global_var = false;
                    }
                }
            }

            if is_var_ass {
                let var_name = prop_value.and_then(|v| v.as_str()).ok_or_else(bad_value)?;
                let prop_value = obj.get("re");
                let is_new_decl = prop_value.is_none();
""", """            let mut prop_value = obj.get("VAR=");
            let is_global_var = prop_value.is_some();
            if !is_global_var {
                prop_value = obj.get("temp=");
            }

            if let Some(assigned) = prop_value {
                let var_name = assigned.as_str().ok_or_else(bad_value)?;
                let is_new_decl = !obj.contains_key("re");
"""))
R("r14-serde-nested", "", (JR, """            let mut prop_value = obj.get("->");
            if prop_value.is_some() {
                is_divert = true;
            } else {
                prop_value = obj.get("f()");
                if prop_value.is_some() {
                    is_divert = true;
                    pushes_to_stack = true;
                    div_push_type = PushPopType::Function;
                } else {
                    prop_value = obj.get("->t->");
                    if prop_value.is_some() {
                        is_divert = true;
                        pushes_to_stack = true;
                        div_push_type = PushPopType::Tunnel;
                    } else {
                        prop_value = obj.get("x()");
                        if prop_value.is_some() {
                            is_divert = true;
                            external = true;
                            pushes_to_stack = false;
                            div_push_type = PushPopType::Function;
                        }
                    }
                }
            }
""", """            let mut prop_value = None;
            if let Some(v) = obj.get("->") {
                is_divert = true;
                prop_value = Some(v);
            } else if let Some(v) = obj.get("f()") {
                is_divert = true;
                pushes_to_stack = true;
                prop_value = Some(v);
            } else if let Some(v) = obj.get("->t->") {
                is_divert = true;
                pushes_to_stack = true;
                div_push_type = PushPopType::Tunnel;
                prop_value = Some(v);
            } else if let Some(v) = obj.get("x()") {
                is_divert = true;
                external = true;
                prop_value = Some(v);
            }
"""))
R("r14-serde-term", "", (JR, """    let terminating_obj = jarray.last().ok_or_else(bad_value)?.as_object();
""", """    let last = match jarray.last() {
        Some(l) => l,
        None => return Err(bad_value()),
    };
    let terminating_obj = last.as_object();
"""), (JR, """                k => {
                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;

                    let named_sub_container = named_content_item
                        .into_any()
                        .downcast::<Container>()
                        .map_err(|_| bad_value())?;

                    named_only_content.insert(k.to_string(), named_sub_container);
                }
""", """                _ => {
                    let item = jtoken_to_runtime_object(v, Some(k.clone()))?;
                    let sub = match item.into_any().downcast::<Container>() {
                        Ok(c) => c,
                        Err(_) => return Err(bad_value()),
                    };
                    named_only_content.insert(k.clone(), sub);
                }
"""))
