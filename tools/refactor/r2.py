S='runtime/src/story_state.rs'
sub(S,'''        if self.turn_indices.contains_key(&container_path_str) {
            let index = *self.turn_indices.get(&container_path_str).unwrap();
            Ok(self.current_turn_index - index)
        } else {
            Ok(-1)
        }
''','''        match self.turn_indices.get(&container_path_str) {
            Some(&index) => Ok(self.turns_elapsed_since(index)),
            None => Ok(-1),
        }
''')
sub(S,'''    pub(crate) fn switch_flow_internal(''','''    fn turns_elapsed_since(&self, index: i32) -> i32 {
        self.current_turn_index - index
    }

    pub(crate) fn switch_flow_internal(''')
sub(S,'''        if flow_name.eq(&self.current_flow.name) {
            return;
        }

        if self.named_flows.is_none() {
            self.named_flows = Some(HashMap::new());
        }

        let named_flows = self.named_flows.as_mut().unwrap();

        // store the current flow and retrieve and remove the next flow
        let flow = named_flows.remove(flow_name);

        let mut next_flow = match flow {
            Some(f) => f,
            None => {
                self.alive_flow_names_dirty = true;
                Flow::new(flow_name, self.main_content_container.clone())
            }
        };

        std::mem::swap(&mut self.current_flow, &mut next_flow);
        named_flows.insert(next_flow.name.clone(), next_flow);

        self.variables_state
''','''        if self.current_flow.name == flow_name {
            return;
        }

        let named_flows = self.named_flows.get_or_insert_with(HashMap::new);

        // store the current flow and retrieve and remove the next flow
        let next_flow = if let Some(existing) = named_flows.remove(flow_name) {
            existing
        } else {
            self.alive_flow_names_dirty = true;
            Flow::new(flow_name, self.main_content_container.clone())
        };

        let previous_flow = std::mem::replace(&mut self.current_flow, next_flow);
        named_flows.insert(previous_flow.name.clone(), previous_flow);

        self.variables_state
''')
sub(S,'''        if let Some(previous_random_obj) = j_object.get("previousRandom") {
            self.previous_random = previous_random_obj
                .as_i64()
                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?
                as i32;
        } else {
            self.previous_random = 0;
        }
''','''        self.previous_random = match j_object.get("previousRandom") {
            Some(v) => v
                .as_i64()
                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?
                as i32,
            None => 0,
        };
''')
sub(S,'''        if let Some(current_turn_index) = j_object.get("turnIdx") {
            self.current_turn_index = current_turn_index
                .as_i64()
                .ok_or_else(|| StoryError::BadJson("Invalid current turn index".to_string()))?
                as i32;
        }

        if let Some(story_seed) = j_object.get("storySeed") {
            self.story_seed = story_seed
                .as_i64()
                .ok_or_else(|| StoryError::BadJson("Invalid story seed".to_string()))?
                as i32;
        }
''','''        if let Some(turn_index) = j_object.get("turnIdx") {
            self.current_turn_index = Self::json_to_i32(turn_index, "Invalid current turn index")?;
        }

        if let Some(seed) = j_object.get("storySeed") {
            self.story_seed = Self::json_to_i32(seed, "Invalid story seed")?;
        }
''')
sub(S,'''    pub(crate) fn remove_flow_internal(''','''    fn json_to_i32(value: &serde_json::Value, err: &str) -> Result<i32, StoryError> {
        match value.as_i64() {
            Some(v) => Ok(v as i32),
            None => Err(StoryError::BadJson(err.to_string())),
        }
    }

    pub(crate) fn remove_flow_internal(''')
sub(S,'''        let is_parked = self
            .named_flows
            .as_ref()
            .is_some_and(|named_flows| named_flows.contains_key(flow_name));

        if !is_parked && !self.current_flow.name.eq(flow_name) {
            return Err(''','''        let is_current = self.current_flow.name == flow_name;
        let is_parked = match &self.named_flows {
            Some(flows) => flows.contains_key(flow_name),
            None => false,
        };

        if !(is_parked || is_current) {
            return Err(''')
sub(S,'''        if self.current_flow.name.eq(flow_name) {
            self.switch_to_default_flow_internal();
        }
''','''        if is_current {
            self.switch_to_default_flow_internal();
        }
''')
sub(S,'''        if !is_warning {
            self.current_errors.push(message);
        } else {
            self.current_warnings.push(message);
        }
''','''        let target = if is_warning {
            &mut self.current_warnings
        } else {
            &mut self.current_errors
        };
        target.push(message);
''')
C='runtime/src/callstack.rs'
sub(C,'''        if !self.can_pop() {
            return false;
        }

        if t.is_none() {
            return true;
        }

        self.get_current_element().push_pop_type == t.unwrap()
''','''        self.can_pop()
            && match t {
                Some(t) => self.get_current_element().push_pop_type == t,
                None => true,
            }
''')
sub(C,'''        if self.can_pop_type(t) {
            let l = self.get_callstack().len() - 1;
            self.get_callstack_mut().remove(l);
        } else {
            return Err(StoryError::InvalidStoryState(
                "Mismatched push/pop in Callstack".to_owned(),
            ));
        }

        Ok(())
''','''        if !self.can_pop_type(t) {
            return Err(StoryError::InvalidStoryState(
                "Mismatched push/pop in Callstack".to_owned(),
            ));
        }

        self.get_callstack_mut().pop();
        Ok(())
''')
sub(C,'''        let mut context_index = context_index;
        // contextIndex 0 means global, so index is actually 1-based
        if context_index == -1 {
            context_index = self.get_current_element_index() + 1;
        }

        let context_element = self.get_callstack().get((context_index - 1) as usize);
        let var_value = context_element.unwrap().temporary_variables.get(name);

        var_value.cloned()
''','''        // contextIndex 0 means global, so index is actually 1-based
        let context_index = match context_index {
            -1 => self.get_current_element_index() + 1,
            other => other,
        };

        self.get_callstack()
            .get((context_index - 1) as usize)
            .unwrap()
            .temporary_variables
            .get(name)
            .cloned()
''')
sub(C,'''        let mut treads_array: Vec<serde_json::Value> = Vec::new();

        for thread in &self.threads {
            treads_array.push(thread.write_json()?);
        }

        cs.insert("threads".to_owned(), serde_json::Value::Array(treads_array));
''','''        let threads = self
            .threads
            .iter()
            .map(|thread| thread.write_json())
            .collect::<Result<Vec<_>, _>>()?;

        cs.insert("threads".to_owned(), serde_json::Value::Array(threads));
''')
V='runtime/src/variables_state.rs'
sub(V,'''        if self.patch.is_some()
            && let Some(var) = self.patch.as_ref().unwrap().get_global(variable_name)
        {
            return Some(var.value.clone());
        }

        // Search main dictionary first.
        // If it's not found, it might be because the story content has changed,
        // and the original default value hasn't be instantiated.
        // Should really warn somehow, but it's difficult to see how...!
        if let Some(var_contents) = self.global_variables.get(variable_name) {
            return Some(var_contents.value.clone());
        } else if let Some(var_contents) = self.default_global_variables.get(variable_name) {
            return Some(var_contents.value.clone());
        }

        None
''','''        if let Some(patch) = &self.patch
            && let Some(var) = patch.get_global(variable_name)
        {
            return Some(var.value.clone());
        }

        // Search main dictionary first, then the defaults.
        self.global_variables
            .get(variable_name)
            .or_else(|| self.default_global_variables.get(variable_name))
            .map(|contents| contents.value.clone())
''')
sub(V,'''        let val = Value::new_value_type(value_type);

        let notify = self.set_global(variable_name, Rc::new(val));

        Ok(notify)
''','''        Ok(self.set_global(variable_name, Rc::new(Value::new_value_type(value_type))))
''')
sub(V,'''                match existing_pointer {
                    Some(existing_pointer) => {
                        match Value::get_value::<&VariablePointerValue>(existing_pointer.as_ref()) {
                            Some(pv) => {
                                name = pv.variable_name.to_string();
                                context_index = pv.context_index;
                                set_global = context_index == 0;
                            }
                            None => break,
                        }
                    }
                    None => break,
                }
''','''                let Some(existing_pointer) = existing_pointer else {
                    break;
                };
                let Some(pv) = Value::get_value::<&VariablePointerValue>(existing_pointer.as_ref())
                else {
                    break;
                };
                name = pv.variable_name.to_string();
                context_index = pv.context_index;
                set_global = context_index == 0;
''')
sub(V,'''        let mut set_global;

        // Are we assigning to a global variable?
        if var_ass.is_new_declaration {
            set_global = var_ass.is_global;
        } else {
            set_global = self.global_variable_exists_with_name(&name);
        }
''','''        // Are we assigning to a global variable?
        let mut set_global = match var_ass.is_new_declaration {
            true => var_ass.is_global,
            false => self.global_variable_exists_with_name(&name),
        };
''')
sub(V,'''        for (name, value) in self.patch.as_ref().unwrap().globals.iter() {
            self.global_variables.insert(name.clone(), value.clone());
        }

        if let Some(changed_variables) = &mut self.changed_variables_for_batch_obs {
            for name in self.patch.as_ref().unwrap().changed_variables.iter() {
                changed_variables.insert(name.clone());
            }
        }

        self.patch = None;
''','''        let patch = self.patch.take().unwrap();

        for (name, value) in &patch.globals {
            self.global_variables.insert(name.clone(), value.clone());
        }

        if let Some(changed) = self.changed_variables_for_batch_obs.as_mut() {
            changed.extend(patch.changed_variables.iter().cloned());
        }
''')
sub(V,'''            // Don't write out values that are the same as the default global values
            let default_val = self.default_global_variables.get(name);
            if let Some(default_val) = default_val
                && self.val_equal(val, default_val)
            {
                continue;
            }

            jobj.insert(name.clone(), json_write::write_rtobject(val.clone())?);
''','''            // Don't write out values that are the same as the default global values
            let unchanged = match self.default_global_variables.get(name) {
                Some(default_val) => self.val_equal(val, default_val),
                None => false,
            };

            if !unchanged {
                let json = json_write::write_rtobject(val.clone())?;
                jobj.insert(name.clone(), json);
            }
''')
sub(V,'''            let loaded_token = jobj.get(k);

            if let Some(loaded_token) = loaded_token {
                self.global_variables.insert(
                    k.to_string(),
                    json_read::jtoken_to_runtime_object(loaded_token, None)?
                        .into_any()
                        .downcast::<Value>()
                        .unwrap(),
                );
            } else {
                self.global_variables.insert(k.clone(), v.clone());
            }
''','''            let value = match jobj.get(k) {
                Some(token) => json_read::jtoken_to_runtime_object(token, None)?
                    .into_any()
                    .downcast::<Value>()
                    .unwrap(),
                None => v.clone(),
            };
            self.global_variables.insert(k.clone(), value);
''')
Q='rinklecate/src/player.rs'
sub(Q,'''    if opts.json_output {
        let all: Vec<String> = h
            .warnings
            .iter()
            .chain(h.errors.iter())
            .map(|s| format!("\\"{}\\"", escape_json_string(s)))
            .collect();
        println!("{{\\"issues\\": [{}]}}", all.join(", "));
    } else {
        for msg in &h.warnings {
            eprintln!("{msg}");
        }
        for msg in &h.errors {
            eprintln!("{msg}");
        }
    }
''','''    if opts.json_output {
        println!("{{\\"issues\\": [{}]}}", quote_all(h.warnings.iter().chain(h.errors.iter())));
    } else {
        for msg in h.warnings.iter().chain(&h.errors) {
            eprintln!("{msg}");
        }
    }
''')
sub(Q,'''fn print_choices_json(''','''fn quote_all<'a>(items: impl Iterator<Item = &'a String>) -> String {
    items
        .map(|s| format!("\\"{}\\"", escape_json_string(s)))
        .collect::<Vec<_>>()
        .join(", ")
}

fn print_choices_json(''')
sub(Q,'''                let tag_strings: Vec<String> = tags
                    .iter()
                    .map(|t| format!("\\"{}\\"", escape_json_string(t)))
                    .collect();
                println!("{{\\"tags\\": [{}]}}", tag_strings.join(", "));
''','''                println!("{{\\"tags\\": [{}]}}", quote_all(tags.iter()));
''')
sub(Q,'''    // Choice number (1-based)
    if let Ok(n) = input.trim().parse::<usize>()
        && n >= 1
    {
        return InputResult::Choice(n - 1);
    }

    InputResult::Unknown
''','''    // Choice number (1-based)
    match input.trim().parse::<usize>() {
        Ok(n) if n > 0 => InputResult::Choice(n - 1),
        _ => InputResult::Unknown,
    }
''')
sub(Q,'''    if lower == "quit" || lower == "exit" {
        return InputResult::Exit;
    }

    if lower == "help" {
        return InputResult::Help;
    }
''','''    match lower.as_str() {
        "quit" | "exit" => return InputResult::Exit,
        "help" => return InputResult::Help,
        _ => {}
    }
''')
