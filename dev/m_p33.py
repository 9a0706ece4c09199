P = ["P33"]
D = "reverb/cc/ops/dataset.cc"
T = "reverb/cc/ops/timestep_dataset.cc"
J = "reverb/cc/ops/trajectory_dataset.cc"
X = "reverb/cc/errors.cc"
REG = """        bool registered = ctx->cancellation_manager()->RegisterCallback(
            token, [&] { sampler_->Close(); });
        if (!registered) {
          sampler_->Close();
        }
"""
DEREG = """        if (registered &&
            !ctx->cancellation_manager()->DeregisterCallback(token)) {
          return Cancelled("Iterator context was cancelled");
        }
"""
RES = """        if (status.ok()) {
          *end_of_sequence = false;
          return status;
        } else if (sampler_options_.rate_limiter_timeout <
                       absl::InfiniteDuration() &&
                   errors::IsRateLimiterTimeout(FromTensorflowStatus(status))) {
          *end_of_sequence = true;
          return tensorflow::Status::OK();
        } else {
          return status;
        }
"""
GETJ = """        auto status = ToTensorflowStatus(
            sampler_->GetNextTrajectory(out_tensors, &rate_limited_));
"""
SEQ = """            step_within_sample_++;

            if (last_timestep && sequence_length_ > 0 &&
                step_within_sample_ != sequence_length_) {
              status = InvalidArgument(
                  "Received sequence of invalid length. Expected ",
                  sequence_length_, " steps, got ", step_within_sample_);
            } else if (step_within_sample_ == sequence_length_ &&
                       !last_timestep) {
              status = InvalidArgument(
                  "Received sequence did not terminate after expected number "
                  "of steps (",
                  sequence_length_, ").");
            } else if (last_timestep) {
              step_within_sample_ = 0;
            }
"""
M = [
 ("noclose", P, "bad", [(J, "token, [&] { sampler_->Close(); });", "token, [&] { rate_limited_ = true; });")]),
 ("unreg-go", P, "bad", [(J, "        if (!registered) {\n          sampler_->Close();\n        }\n", "")]),
 ("dereg-none", P, "bad", [(J, DEREG, "")]),
 ("dereg-err-only", P, "bad", [(J, DEREG, ""), (J, RES, "        if (!status.ok() && registered && !ctx->cancellation_manager()->DeregisterCallback(token)) {\n          return Cancelled(\"x\");\n        }\n" + RES)]),
 ("dereg-after-return", P, "bad", [(T, DEREG, ""), (T, "        if (status.ok()) {\n          *end_of_sequence = false;\n          return status;\n", "        if (status.ok()) {\n          *end_of_sequence = false;\n          return status;\n        }\n" + DEREG + "        if (status.ok()) {\n          return status;\n")]),
 ("dereg-early", P, "bad", [(J, GETJ + "        if (registered &&\n            !ctx->cancellation_manager()->DeregisterCallback(token)) {\n          return Cancelled(\"Iterator context was cancelled\");\n        }\n", DEREG + GETJ)]),
 ("cancel-ok", P, "bad", [(J, '          return Cancelled("Iterator context was cancelled");', "          *end_of_sequence = true;\n          return tensorflow::Status::OK();")]),
 ("inf", P, "bad", [(T, "sampler_options_.rate_limiter_timeout <\n                       absl::InfiniteDuration() &&\n                   errors", "errors")]),
 ("any-error", P, "bad", [(T, "sampler_options_.rate_limiter_timeout <\n                       absl::InfiniteDuration() &&\n                   errors::IsRateLimiterTimeout(FromTensorflowStatus(status))", "sampler_options_.rate_limiter_timeout <\n                       absl::InfiniteDuration()")]),
 ("or", P, "bad", [(D, "absl::InfiniteDuration() &&\n                   errors", "absl::InfiniteDuration() ||\n                   errors")]),
 ("timeout-err", P, "bad", [(J, "          *end_of_sequence = true;\n          return tensorflow::Status::OK();", "          *end_of_sequence = true;\n          return status;")]),
 ("noend", P, "bad", [(J, "          *end_of_sequence = true;\n          return tensorflow::Status::OK();", "          return tensorflow::Status::OK();")]),
 ("okend", P, "bad", [(J, "          *end_of_sequence = false;\n", "")]),
 ("okend-true", P, "bad", [(J, "          *end_of_sequence = false;\n", "          *end_of_sequence = rate_limited_;\n          *end_of_sequence = true;\n")]),
 ("seq-noreset", P, "bad", [(D, "            } else if (last_timestep) {\n              step_within_sample_ = 0;\n            }", "            }")]),
 ("seq-any", P, "bad", [(D, "last_timestep && sequence_length_ > 0 &&", "last_timestep &&")]),
 ("seq-short", P, "bad", [(D, "                step_within_sample_ != sequence_length_) {", "                step_within_sample_ > sequence_length_) {")]),
 ("seq-late", P, "bad", [(D, "step_within_sample_ == sequence_length_ &&\n                       !last_timestep", "step_within_sample_ == sequence_length_ + 1 &&\n                       !last_timestep")]),
 ("seq-pre", P, "bad", [(D, "            step_within_sample_++;\n\n", ""), (D, "            } else if (last_timestep) {\n              step_within_sample_ = 0;\n            }", "            } else if (last_timestep) {\n              step_within_sample_ = 0;\n            } else {\n              step_within_sample_++;\n            }")]),
 ("init-table-opts", P, "bad", [(J, "            client_->NewSampler(table_, sampler_options_,\n", "            client_->NewSampler(table_, Sampler::Options(),\n")]),
 ("init-anyerr", P, "bad", [(J, "if (absl::IsDeadlineExceeded(status)) {", "if (!status.ok()) {")]),
 ("init-swallow", P, "bad", [(J, "          return ToTensorflowStatus(client_->NewSampler(\n              table_, sampler_options_,\n              /*validation_timeout=*/-absl::InfiniteDuration(), &sampler_));\n        }", "          client_->NewSampler(\n              table_, sampler_options_,\n              /*validation_timeout=*/-absl::InfiniteDuration(), &sampler_).IgnoreError();\n        }")]),
 ("trim-inv", P, "bad", [(D, "        if (!emit_timesteps_) {\n          for", "        if (emit_timesteps_) {\n          for")]),
 ("trim-none", P, "bad", [(D, "            shape.RemoveDim(0);\n", "")]),
 ("attr-swap", P, "bad", [(J, "b->BuildAttrValue(sampler_options_.max_samples_per_stream,", "b->BuildAttrValue(sampler_options_.max_in_flight_samples_per_worker,")]),
 ("attr-read", P, "bad", [(T, "&sampler_options_.flexible_batch_size", "&sampler_options_.max_samples_per_stream")]),
 ("attr-lost", P, "bad", [(D, '              {"flexible_batch_size", flexible_batch_size_attr},\n', "")]),
 ("attr-wrong", P, "bad", [(D, '{"num_workers_per_iterator", num_workers_attr}', '{"num_workers_per_iterator", max_samples_per_stream_attr}')]),
 ("err-code", P, "bad", [(X, "return absl::IsDeadlineExceeded(status) &&\n         ", "return ")]),
 ("err-text", P, "bad", [(X, "  return absl::IsDeadlineExceeded(status) &&\n         absl::StrContains(status.message(), kTimeoutExceededErrorMessage);", "  return absl::IsDeadlineExceeded(status);")]),
 ("err-kind", P, "bad", [(X, "absl::DeadlineExceededError(kT", "absl::UnavailableError(kT")]),

 ("ok-early-false", P, "ok", [(J, RES, """        *end_of_sequence = false;
        const bool may_end = sampler_options_.rate_limiter_timeout < absl::InfiniteDuration();
        if (!status.ok() && may_end && errors::IsRateLimiterTimeout(FromTensorflowStatus(status))) {
          *end_of_sequence = true;
          return tensorflow::Status::OK();
        }
        return status;
""")]),
 ("ok-unreg-ret", P, "ok", [(J, "        if (!registered) {\n          sampler_->Close();\n        }\n", "        if (!registered) return Cancelled(\"Iterator context was cancelled\");\n")]),
 ("ok-dereg-nested", P, "ok", [(J, DEREG, """        if (registered) {
          const bool alive = ctx->cancellation_manager()->DeregisterCallback(token);
          if (!alive) return Cancelled("Iterator context was cancelled");
        }
""")]),
 ("ok-res-order", P, "ok", [(T, RES, """        if (!status.ok()) {
          if (!errors::IsRateLimiterTimeout(FromTensorflowStatus(status))) return status;
          if (sampler_options_.rate_limiter_timeout == absl::InfiniteDuration()) return status;
          *end_of_sequence = true;
          return tensorflow::Status::OK();
        }
        *end_of_sequence = false;
        return tensorflow::Status::OK();
""")]),
 ("ok-absl", P, "ok", [(J, GETJ, "        const absl::Status result = sampler_->GetNextTrajectory(out_tensors, &rate_limited_);\n        auto status = ToTensorflowStatus(result);\n")]),
 ("ok-seq", P, "ok", [(D, SEQ, """            ++step_within_sample_;
            const bool full = step_within_sample_ == sequence_length_;
            if (last_timestep) {
              if (sequence_length_ > 0 && !full) {
                status = InvalidArgument("Received sequence of invalid length.");
              } else {
                step_within_sample_ = 0;
              }
            } else if (full) {
              status = InvalidArgument("Received sequence did not terminate.");
            }
""")]),
 ("ok-init", P, "ok", [(J, "        if (absl::IsDeadlineExceeded(status)) {", "        const bool unreachable = absl::IsDeadlineExceeded(status);\n        if (unreachable) {")]),
 ("ok-init-assign", P, "ok", [(J, "          return ToTensorflowStatus(client_->NewSampler(\n              table_, sampler_options_,\n              /*validation_timeout=*/-absl::InfiniteDuration(), &sampler_));", "          status = client_->NewSampler(\n              table_, sampler_options_,\n              /*validation_timeout=*/-absl::InfiniteDuration(), &sampler_);")]),
 ("ok-err", P, "ok", [(X, "  return absl::IsDeadlineExceeded(status) &&\n         absl::StrContains(status.message(), kTimeoutExceededErrorMessage);", "  if (!absl::IsDeadlineExceeded(status)) return false;\n  return absl::StrContains(status.message(), kTimeoutExceededErrorMessage);")]),
 ("ok-trim", P, "ok", [(D, "          for (auto& shape : validation_shapes) {\n            shape.RemoveDim(0);\n          }\n", "          for (size_t i = 0; i < validation_shapes.size(); ++i) {\n            validation_shapes[i].RemoveDim(0);\n          }\n")]),
 ("ok-attr", P, "ok", [(J, "    tensorflow::int64 rate_limiter_timeout_ms;\n", "    tensorflow::int64 timeout_ms;\n"), (J, "ctx->GetAttr(\"rate_limiter_timeout_ms\", &rate_limiter_timeout_ms)", "ctx->GetAttr(\"rate_limiter_timeout_ms\", &timeout_ms)"), (J, "Int64MillisToNonnegativeDuration(rate_limiter_timeout_ms)", "Int64MillisToNonnegativeDuration(timeout_ms)")]),
]
