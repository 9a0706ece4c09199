F = "reverb/pybind.cc"
SV = '''            std::unique_ptr<Server> server;
            MaybeRaiseFromStatus(StartServer(std::move(priority_tables), port,
                                             std::move(checkpointer), &server));
            return server.release();'''
FL = '''             {
               py::gil_scoped_release g;
               status = writer->Flush(ignore_last_num_items, timeout);
             }
             MaybeRaiseFromStatus(status);'''
WF = '''            {
              py::gil_scoped_release g;
'''
M = [
 ("close-unguarded", ["P31"], "bad", [(F, '''"Close", &Writer::Close, py::call_guard<py::gil_scoped_release>())''', '''"Close", &Writer::Close)''')]),
 ("wait-unguarded", ["P31"], "bad", [(F, '''"Wait", &Server::Wait, py::call_guard<py::gil_scoped_release>())''', '''"Wait", &Server::Wait)''')]),
 ("twclose-unguarded", ["P31"], "bad", [(F, '''      .def("Close", &TrajectoryWriter::Close,
           py::call_guard<py::gil_scoped_release>())''', '''      .def("Close", &TrajectoryWriter::Close)''')]),
 ("flush-raise-inside", ["P31"], "bad", [(F, FL, '''             {
               py::gil_scoped_release g;
               status = writer->Flush(ignore_last_num_items, timeout);
               MaybeRaiseFromStatus(status);
             }''')]),
 ("flush-held", ["P31"], "bad", [(F, FL, '''             status = writer->Flush(ignore_last_num_items, timeout);
             MaybeRaiseFromStatus(status);''')]),
 ("flush-temporary", ["P31"], "bad", [(F, FL, '''             {
               py::gil_scoped_release();
               status = writer->Flush(ignore_last_num_items, timeout);
             }
             MaybeRaiseFromStatus(status);''')]),
 ("flush-dropped", ["P31"], "bad", [(F, FL, '''             {
               py::gil_scoped_release g;
               status = writer->Flush(ignore_last_num_items, timeout);
             }''')]),
 ("flush-deadline-dropped", ["P31"], "bad", [(F, FL, FL.replace("             MaybeRaise", "             if (!absl::IsDeadlineExceeded(status)) MaybeRaise"))]),
 ("flush-return", ["P31"], "ok", [(F, FL, '''             {
               py::gil_scoped_release g;
               status = writer->Flush(ignore_last_num_items, timeout);
             }
             return status;''')]),
 ("flush-if", ["P31"], "ok", [(F, FL, FL.replace("             MaybeRaise", "             if (!status.ok()) MaybeRaise"))]),
 ("flush-lambda", ["P31"], "ok", [(F, FL, '''             auto call = [&] {
               py::gil_scoped_release g;
               return writer->Flush(ignore_last_num_items, timeout);
             };
             status = call();
             MaybeRaiseFromStatus(status);''')]),
 ("guard-raise", ["P31"], "bad", [(F, '''            return client->MutatePriorities(table, update_protos, deletes);
          },''', '''            MaybeRaiseFromStatus(
                client->MutatePriorities(table, update_protos, deletes));
          },''')]),
 ("mutate-unguarded", ["P31"], "bad", [(F, '''            return client->MutatePriorities(table, update_protos, deletes);
          },
          py::call_guard<py::gil_scoped_release>())''', '''            return client->MutatePriorities(table, update_protos, deletes);
          })''')]),
 ("mutate-inner", ["P31"], "ok", [(F, '''            return client->MutatePriorities(table, update_protos, deletes);
          },
          py::call_guard<py::gil_scoped_release>())''', '''            py::gil_scoped_release g;
            return client->MutatePriorities(table, update_protos, deletes);
          })''')]),
 ("checkpoint-bytes", ["P31"], "bad", [(F, '''          status = client->Checkpoint(&path);
        }
        MaybeRaiseFromStatus(status);
        return path;''', '''          status = client->Checkpoint(&path);
          if (status.ok()) return py::bytes(path);
        }
        MaybeRaiseFromStatus(status);
        return py::bytes();''')]),
 ("dtype-inside", ["P31"], "bad", [(F, '''              status = sp->GetSpec(&spec);
            }
            // Python''', '''              status = sp->GetSpec(&spec);
              dtype = py::dtype();
            }
            // Python''')]),
 ("dtype-overwritten", ["P31"], "bad", [(F, '''            if (status.ok()) {
              PyArray_Descr''', '''            {
              PyArray_Descr''')]),
 ("numpy-no-lock-check", ["P31"], "bad", [(F, '''             auto sp = ref->ref().lock();
             if (!sp) {
               MaybeRaiseFromStatus(absl::FailedPreconditionError(
                   "Cannot access data from expired WeakCellRef"));
               return tensor;
             }
''', '''             auto sp = ref->ref().lock();
''')]),
 ("raise-ok-return", ["P31"], "bad", [(F, '''  if (status.ok()) return;
''', '''  if (status.ok() || absl::IsCancelled(status)) return;
''')]),
 ("raise-no-set", ["P31"], "bad", [(F, '''    default:
      PyErr_SetString(PyExc_RuntimeError, std::string(status.message()).data());
  }
''', '''    default:
      break;
  }
''')]),
 ("raise-swapped", ["P31"], "bad", [(F, "(absl::StatusCode::kInvalidArgument, PyExc_ValueError)", "(absl::StatusCode::kInvalidArgument, PyExc_IndexError)")]),
 ("raise-if", ["P31"], "ok", [(F, '''    CODE_TO_PY_EXC(absl::StatusCode::kInternal, PyExc_RuntimeError)
''', "")]),
 ("caster-none", ["P31"], "bad", [(F, '''    MaybeRaiseFromStatus(status);
    return none().inc_ref();''', '''    if (!absl::IsCancelled(status)) MaybeRaiseFromStatus(status);
    return none().inc_ref();''')]),
 ("append-dropped", ["P31"], "bad", [(F, '''            MaybeRaiseFromStatus(writer->Append(std::move(data), &refs));''', '''            writer->Append(std::move(data), &refs).IgnoreError();''')]),
 ("create-writer", ["P31"], "bad", [(F, '''            {
              py::gil_scoped_release g;
              status =
                  client->NewWriter(''', '''            {
              status =
                  client->NewWriter(''')]),
 ("sampler-order", ["P31"], "bad", [(F, '''                 status = sampler->GetNextTrajectory''', '''                 status = sampler->GetNextTrajectory''')]) if False else
 ("tw-else-guard", ["P31"], "ok", [(F, '''             } else {
               status = client->NewTrajectoryWriter(options, &writer);''', '''             } else {
               py::gil_scoped_release g;
               status = client->NewTrajectoryWriter(options, &writer);''')]),
 ("tw-held", ["P31"], "bad", [(F, '''               py::gil_scoped_release g;

               status = client->NewTrajectoryWriter(''', '''
               status = client->NewTrajectoryWriter(''')]),
 ("append-waits", ["P31"], "bad", [("reverb/cc/trajectory_writer.cc", '''absl::Status TrajectoryWriter::AppendInternal(''', '''absl::Status TrajectoryWriter::AppendInternal(''')]) if False else
 ("can-sample-waits", ["P31"], "bad", [(F, '''      .def("can_sample", &Table::CanSample,
           py::call_guard<py::gil_scoped_release>())''', '''      .def("reset", &Table::Reset)''')]),
 ("info-inside", ["P31"], "bad", [(F, "              py::gil_scoped_release g;\n", "              py::gil_scoped_release g;\n              py::bytes empty;\n")]),
 ("start-held", ["P31"], "bad", [(F, """              py::gil_scoped_release g;
              status = StartServer""", """              status = StartServer""")]),
]
