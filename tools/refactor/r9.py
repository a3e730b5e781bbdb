import re
P='runtime/src/story/control_logic.rs'
# a helper for integers off the stack
sub(P,'''                    let mut max_int = None;
                    let o = self.get_state_mut().pop_evaluation_stack()?;
                    if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                        max_int = Some(v);
                    }

                    let o = self.get_state_mut().pop_evaluation_stack()?;
                    let mut min_int = None;
                    if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                        min_int = Some(v);
                    }
''','''                    let max_int = self.pop_int()?;
                    let min_int = self.pop_int()?;
''')
sub(P,'''                    let mut seed: Option<i32> = None;
                    let o = self.get_state_mut().pop_evaluation_stack()?;
                    if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                        seed = Some(v);
                    }

                    if seed.is_none() {
                        return Err(StoryError::InvalidStoryState(
                            "Invalid value passed to SEED_RANDOM".to_owned(),
                        ));
                    }

                    // Story seed affects both RANDOM and shuffle behaviour
                    self.get_state_mut().story_seed = seed.unwrap();
                    self.get_state_mut().previous_random = 0; // SEED_RANDOM returns nothing.
                    self.get_state_mut()
                        .push_evaluation_stack(Rc::new(Void::new()));
''','''                    let Some(seed) = self.pop_int()? else {
                        return Err(StoryError::InvalidStoryState(
                            "Invalid value passed to SEED_RANDOM".to_owned(),
                        ));
                    };

                    let state = self.get_state_mut();
                    // Story seed affects both RANDOM and shuffle behaviour
                    state.story_seed = seed;
                    state.previous_random = 0; // SEED_RANDOM returns nothing.
                    state.push_evaluation_stack(Rc::new(Void::new()));
''')
# an arm becomes a method
s=open('/tmp/rf/repo/'+P).read()
a=s.index("                    // Since we're iterating backward through the content,\n                    // build a stack so that when we build the string,")
b=s.index("                }\n                CommandType::NoOp => {}")
body=s[a:b]
s=s[:a]+"                    self.end_string();\n"+s[b:]
s=s.replace('''impl Story {
    pub(crate) fn perform_logic''','''impl Story {
    fn pop_int(&mut self) -> Result<Option<i32>, StoryError> {
        let o = self.get_state_mut().pop_evaluation_stack()?;
        Ok(Value::get_value::<i32>(o.as_ref()))
    }

    fn end_string(&mut self) {
'''+body+'''    }

    fn divert_through_variable(&mut self, var_name: &str) -> Result<(), StoryError> {
        let var_contents = match self
            .get_state()
            .variables_state
            .get_variable_with_name(var_name, -1)
        {
            Some(v) => v,
            None => {
                return Err(StoryError::InvalidStoryState(format!(
                    "Tried to divert using a target from a variable that could not be found ({})",
                    var_name
                )));
            }
        };
        let Some(target) = Value::get_value::<&Path>(var_contents.as_ref()) else {
            let error_message = format!(
                "Tried to divert to a target from a variable, but the variable ({}) didn't contain a divert target, it ",
                var_name
            );
            let error_message = match var_contents.value {
                ValueType::Int(0) => format!("{}was empty/null (the value 0).", error_message),
                ValueType::Int(_) => format!("{}contained '{}'.", error_message, var_contents),
                _ => error_message,
            };
            return Err(StoryError::InvalidStoryState(error_message));
        };
        let p = Self::pointer_at_path(&self.main_content_container, target)?;
        self.get_state_mut().set_diverted_pointer(p);
        Ok(())
    }

    pub(crate) fn perform_logic''',1)
a=s.index("                let var_name = &current_divert.variable_divert_name;")
b=s.index("            } else if current_divert.is_external {")
s=s[:a]+"                self.divert_through_variable(current_divert.variable_divert_name.as_ref().unwrap())?;\n"+s[b:]
# count commands: nested ifs to one match on the pair
a=s.index("                    let either_count: i32;")
b=s.index("                    self.get_state_mut()\n                        .push_evaluation_stack(Rc::new(Value::new::<i32>(either_count)));")
s=s[:a]+'''                    let turns = eval_command.command_type == CommandType::TurnsSince;
                    let either_count = match container {
                        Some(container) if turns => self
                            .get_state()
                            .turns_since_for_container(container.as_ref())?,
                        Some(container) => {
                            self.get_state_mut().visit_count_for_container(&container)
                        }
                        None => {
                            self.add_error(
                                &format!(
                                    "Failed to find container for {} lookup at {}",
                                    eval_command, target
                                ),
                                true,
                            );
                            if turns { -1 } else { 0 }
                        }
                    };

'''+s[b:]
open('/tmp/rf/repo/'+P,'w').write(s)
sub(P,'''                    if self.get_state().get_callstack().borrow().can_pop_thread() {
                        self.get_state()
                            .get_callstack()
                            .as_ref()
                            .borrow_mut()
                            .pop_thread()?;
                    }
                    // In normal flow - allow safe exit without warning
                    else {
                        self.get_state_mut().set_did_safe_exit(true); // Stop flow in current thread
                        self.get_state().set_current_pointer(pointer::NULL.clone());
                    }
''','''                    let in_thread = self.get_state().get_callstack().borrow().can_pop_thread();
                    if !in_thread {
                        // In normal flow - allow safe exit without warning
                        let state = self.get_state_mut();
                        state.set_current_pointer(pointer::NULL.clone()); // Stop flow in current thread
                        state.set_did_safe_exit(true);
                        return Ok(true);
                    }
                    self.get_state()
                        .get_callstack()
                        .as_ref()
                        .borrow_mut()
                        .pop_thread()?;
''')
sub(P,'''            let found_value: Rc<Value>; // Explicit read count value
            if var_ref.path_for_count.is_some() {
                let container = var_ref
                    .get_container_for_count()
                    .map_err(StoryError::InvalidStoryState)?;
                let count = self.get_state_mut().visit_count_for_container(&container);
                found_value = Rc::new(Value::new::<i32>(count));
            }
            // Normal variable reference
            else {
                match self
                    .get_state()
                    .variables_state
                    .get_variable_with_name(&var_ref.name, -1)
                {
                    Some(v) => found_value = v,
                    None => {''','''            let found_value: Rc<Value> = if var_ref.path_for_count.is_none() {
                // Normal variable reference
                match self
                    .get_state()
                    .variables_state
                    .get_variable_with_name(&var_ref.name, -1)
                {
                    Some(v) => v,
                    None => {''')
sub(P,'''                        found_value = Rc::new(Value::new::<i32>(0));
                    }
                }
            }
''','''                        Rc::new(Value::new::<i32>(0))
                    }
                }
            } else {
                // Explicit read count value
                let container = var_ref
                    .get_container_for_count()
                    .map_err(StoryError::InvalidStoryState)?;
                let count = self.get_state_mut().visit_count_for_container(&container);
                Rc::new(Value::new::<i32>(count))
            };
''')
P='runtime/src/container.rs'
sub(P,'''        if component.is_index() {
            if let Some(index) = component.index
                && index < self.content.len()
            {
                return Some(self.content[index].clone());
            }
        } else if component.is_parent() {
            // When path is out of range, quietly return None
            // (useful as we step/increment forwards through content)
            return match self.get_object().get_parent() {
                Some(o) => Some(o as Rc<dyn RTObject>),
                None => None,
            };
        } else if let Some(found_content) = self.named_content.get(component.name.as_ref().unwrap())
        {
            return Some(found_content.clone());
        }

        None''','''        if let Some(index) = component.index {
            // When path is out of range, quietly return None
            // (useful as we step/increment forwards through content)
            return self.content.get(index).cloned();
        }
        if component.is_parent() {
            return self
                .get_object()
                .get_parent()
                .map(|o| o as Rc<dyn RTObject>);
        }

        match self.named_content.get(component.name.as_ref().unwrap()) {
            Some(found_content) => Some(found_content.clone()),
            None => None,
        }''')
sub(P,'''        let mut flags: i32 = 0;

        if self.visits_should_be_counted {
            flags |= COUNTFLAGS_VISITS
        }

        if self.turn_index_should_be_counted {
            flags |= COUNTFLAGS_TURNS;
        }

        if self.counting_at_start_only {
            flags |= COUNTFLAGS_COUNTSTARTONLY;
        }
''','''        let flag = |on: bool, value: i32| if on { value } else { 0 };
        let mut flags: i32 = flag(self.visits_should_be_counted, COUNTFLAGS_VISITS)
            | flag(self.turn_index_should_be_counted, COUNTFLAGS_TURNS)
            | flag(self.counting_at_start_only, COUNTFLAGS_COUNTSTARTONLY);
''')
P='runtime/src/story_state.rs'
sub(P,'''        let has_patch = self.patch.is_some();

        if has_patch {
            let curr_count = self.visit_count_for_container(container);
            let new_count = curr_count + 1;
            self.patch
                .as_mut()
                .unwrap()
                .set_visit_count(container, new_count);
        } else {
            let mut count = 0;
            let container_path_str = container.get_path().to_string();

            if let Some(&existing_count) = self.visit_counts.get(&container_path_str) {
                count = existing_count;
            }

            count += 1;
            self.visit_counts.insert(container_path_str, count);
        }''','''        if self.patch.is_some() {
            let new_count = self.visit_count_for_container(container) + 1;
            if let Some(patch) = self.patch.as_mut() {
                patch.set_visit_count(container, new_count);
            }
            return;
        }

        let container_path_str = container.get_path().to_string();
        *self.visit_counts.entry(container_path_str).or_insert(0) += 1;''')
sub(P,'''        self.variables_state.apply_patch();

        if self.patch.is_some() {
            for (path, count) in self.patch.as_ref().unwrap().visit_counts.clone().iter() {
                self.apply_count_changes(path, *count, true);
            }

            for (path, index) in self.patch.as_ref().unwrap().turn_indices.clone().iter() {
                self.apply_count_changes(path, *index, false);
            }
        }

        self.patch = None;''','''        self.variables_state.apply_patch();

        if let Some(patch) = self.patch.take() {
            for (path, index) in &patch.turn_indices {
                self.apply_count_changes(path, *index, false);
            }

            for (path, count) in &patch.visit_counts {
                self.apply_count_changes(path, *count, true);
            }
        }''')
P='runtime/src/object.rs'
sub(P,'''        // No shared path components, so just use the global path
        if last_shared_path_comp_index == -1 {
            return global_path.clone();
        }

        let num_upwards_moves =
            (own_path.as_ref().unwrap().len() - 1) - last_shared_path_comp_index as usize;
        let mut new_path_comps = Vec::new();

        for _ in 0..num_upwards_moves {
            new_path_comps.push(Component::to_parent());
        }

        for down in (last_shared_path_comp_index as usize + 1)..global_path.len() {
            new_path_comps.push(global_path.get_component(down).unwrap().clone());
        }
''','''        // No shared path components, so just use the global path
        if last_shared_path_comp_index < 0 {
            return global_path.clone();
        }

        let last_shared = last_shared_path_comp_index as usize;
        let mut new_path_comps = vec![Component::to_parent(); (own_path.as_ref().unwrap().len() - 1) - last_shared];
        let mut down = last_shared + 1;
        while down < global_path.len() {
            new_path_comps.push(global_path.get_component(down).unwrap().clone());
            down += 1;
        }
''')
