P='runtime/src/story/progress.rs'
sub(P,'''                if self.state.get_generated_choices().is_empty()
                    && !self.get_state().is_did_safe_exit()
                    && self.temporary_evaluation_container.is_none()
                {
                    if self
                        .state
                        .get_callstack()
                        .borrow()
                        .can_pop_type(Some(PushPopType::Tunnel))
                    {
                        self.add_error("unexpectedly reached end of content. Do you need a '->->' to return from a tunnel?", false);
                    } else if self
                        .state
                        .get_callstack()
                        .borrow()
                        .can_pop_type(Some(PushPopType::Function))
                    {
                        self.add_error(
                            "unexpectedly reached end of content. Do you need a '~ return'?",
                            false,
                        );
                    } else if !self.get_state().get_callstack().borrow().can_pop() {
                        self.add_error(
                            "ran out of content. Do you need a '-> DONE' or '-> END'?",
                            false,
                        );
                    } else {
                        self.add_error("unexpectedly reached end of content for unknown reason. Please debug compiler!", false);
                    }
                }
''','''                let unexpected_end = self.temporary_evaluation_container.is_none()
                    && self.state.get_generated_choices().is_empty()
                    && !self.get_state().is_did_safe_exit();
                if unexpected_end {
                    let msg = self.unexpected_end_message();
                    self.add_error(msg, false);
                }
''')
sub(P,'''    pub(crate) fn continue_single_step(''','''    fn unexpected_end_message(&self) -> &'static str {
        let cs = self.state.get_callstack().borrow();
        if cs.can_pop_type(Some(PushPopType::Tunnel)) {
            return "unexpectedly reached end of content. Do you need a '->->' to return from a tunnel?";
        }
        if cs.can_pop_type(Some(PushPopType::Function)) {
            return "unexpectedly reached end of content. Do you need a '~ return'?";
        }
        if cs.can_pop() {
            "unexpectedly reached end of content for unknown reason. Please debug compiler!"
        } else {
            "ran out of content. Do you need a '-> DONE' or '-> END'?"
        }
    }

    fn summarise_problems(&self) -> String {
        let errors = self.get_state().get_current_errors();
        let warnings = self.get_state().get_current_warnings();
        let mut sb = String::from("Ink had ");
        sb.push_str(&errors.len().to_string());
        sb.push_str(if errors.len() == 1 { " error" } else { " errors" });
        if !warnings.is_empty() {
            sb.push_str(" and ");
            sb.push_str(&warnings.len().to_string());
            sb.push_str(if warnings.len() == 1 { " warning" } else { " warnings" });
        }
        sb.push_str(". It is strongly suggested that you assign an error handler to story.onError. The first issue was: ");
        sb.push_str(&errors[0]);
        sb
    }

    pub(crate) fn continue_single_step(''')
s=open('/tmp/rf/repo/'+P).read()
a=s.index('                        let mut sb = String::new();\n                        sb.push_str("Ink had ");'); b=s.index('                        outcome = Err(StoryError::InvalidStoryState(sb));')
s=s[:a]+'                        let sb = self.summarise_problems();\n'+s[b:]
open('/tmp/rf/repo/'+P,'w').write(s)
sub(P,'''        let duration_stopwatch = match self.async_continue_active {
            true => Some(web_time::Instant::now()),
            false => None,
        };
''','''        let duration_stopwatch = if self.async_continue_active {
            Some(web_time::Instant::now())
        } else {
            None
        };
''')
sub(P,'''        loop {
            match self.continue_single_step() {
                Ok(r) => output_stream_ends_in_newline = r,
                Err(e) => {
                    self.add_error(e.get_message(), false);
                    break;
                }
            }

            if output_stream_ends_in_newline {
                break;
            }

            // Run out of async time?
            if self.async_continue_active
                && duration_stopwatch.as_ref().unwrap().elapsed().as_millis() as f32
                    > millisecs_limit_async
            {
                break;
            }

            if !self.can_continue() {
                break;
            }
        }
''','''        while !output_stream_ends_in_newline {
            output_stream_ends_in_newline = match self.continue_single_step() {
                Ok(r) => r,
                Err(e) => {
                    self.add_error(e.get_message(), false);
                    break;
                }
            };

            if output_stream_ends_in_newline {
                break;
            }

            if let Some(watch) = &duration_stopwatch {
                if self.async_continue_active && watch.elapsed().as_millis() as f32 > millisecs_limit_async {
                    break;
                }
            }

            if !self.can_continue() {
                break;
            }
        }
''')
sub(P,'''        if let Some(changed) = changed_variables_to_observe {
            for (variable_name, value) in changed {
                self.notify_variable_changed(&variable_name, &value);
            }
        }
''','''        for (variable_name, value) in changed_variables_to_observe.into_iter().flatten() {
            self.notify_variable_changed(&variable_name, &value);
        }
''')
C='runtime/src/story/choices.rs'
sub(C,'''        if choice_index >= choices.len() {
            return Err(StoryError::BadArgument("choice out of range".to_owned()));
        }
''','''        let Some(choice_to_choose) = choices.get(choice_index) else {
            return Err(StoryError::BadArgument("choice out of range".to_owned()));
        };
''')
sub(C,'''        let choice_to_choose = choices.get(choice_index).unwrap();
        self.get_state()
            .get_callstack()
            .borrow_mut()
            .set_current_thread(choice_to_choose.get_thread_at_generation().unwrap());

        self.choose_path(&choice_to_choose.target_path, true)?;

        Ok(())
''','''        let thread = choice_to_choose.get_thread_at_generation().unwrap();
        self.get_state()
            .get_callstack()
            .borrow_mut()
            .set_current_thread(thread);

        self.choose_path(&choice_to_choose.target_path, true)
''')
sub(C,'''        if choice_point.has_condition() {
            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
            if !self.is_truthy(condition_value)? {
                show_choice = false;
            }
        }
''','''        if choice_point.has_condition() {
            show_choice = self.condition_holds()?;
        }
''')
sub(C,'''    pub(crate) fn process_choice(''','''    fn condition_holds(&mut self) -> Result<bool, StoryError> {
        let v = self.get_state_mut().pop_evaluation_stack()?;
        self.is_truthy(v)
    }

    pub(crate) fn process_choice(''')
sub(C,'''        if choice_point.once_only() {
            let visit_count = self
                .get_state_mut()
                .visit_count_for_container(choice_point.get_choice_target().as_ref().unwrap());
            if visit_count > 0 {
                show_choice = false;
            }
        }
''','''        if choice_point.once_only() {
            let target = choice_point.get_choice_target();
            let seen = self
                .get_state_mut()
                .visit_count_for_container(target.as_ref().unwrap())
                > 0;
            show_choice = show_choice && !seen;
        }
''')
X='runtime/src/story/external_functions.rs'
sub(X,'''        if !self.externals.contains_key(func_name) {
            return Err(StoryError::BadArgument(format!(
                "Function '{func_name}' has not been bound."
            )));
        }

        self.externals.remove(func_name);

        Ok(())
''','''        match self.externals.remove(func_name) {
            Some(_) => Ok(()),
            None => Err(StoryError::BadArgument(format!(
                "Function '{func_name}' has not been bound."
            ))),
        }
''')
sub(X,'''        let external_function_def = ExternalFunctionDef {
            function,
            lookahead_safe,
        };

        self.externals
            .insert(func_name.to_string(), external_function_def);
''','''        self.externals.insert(
            func_name.to_owned(),
            ExternalFunctionDef {
                lookahead_safe,
                function,
            },
        );
''')
