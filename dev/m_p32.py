t='table.cc'
def b(n,*e): return (n,['P32'],'bad',list(e))
def k(n,*e): return (n,['P32'],'ok',list(e))
M=[
b('sync-wrong',(t,"extension->OnUpdate(&mu_, e_item);","extension->OnInsert(&mu_, e_item);")),
b('sync-fallthrough',(t,"          extension->OnSample(&mu_, e_item);\n        }\n        break;","          extension->OnSample(&mu_, e_item);\n        }")),
b('async-wrong',(t,"extension->OnUpdate(&async_extensions_mu_, request.item);","extension->OnSample(&async_extensions_mu_, request.item);")),
b('async-moved',(t,"""            for (auto& extension : async_extensions_) {
              extension->OnDelete(&async_extensions_mu_, request.item);
            }
            deleted_items.push_back(std::move(request.item.ref));
""","""            deleted_items.push_back(std::move(request.item.ref));
            for (auto& extension : async_extensions_) {
              extension->OnDelete(&async_extensions_mu_, request.item);
            }
""")),
b('noenq',(t,"if (!has_async_extensions_ && type != ExtensionRequest::CallType::kDelete &&\n      type","if (type != ExtensionRequest::CallType::kDelete && type != ExtensionRequest::CallType::kUpdate &&\n      type")),
b('sync-early-return',(t,"  if (!sync_extensions_.empty()) {\n    ExtensionItem","  if (!sync_extensions_.empty() && !extension_worker_) {\n    ExtensionItem")),
b('nowake',(t,"if (extension_requests_.size() == 1) {","if (extension_requests_.size() == 2) {")),
b('reset-async',(t,"      for (auto& extension : async_extensions_) {\n        extension->OnReset(&async_extensions_mu_);\n      }\n","")),
b('first-only',(t,"              extension->OnInsert(&async_extensions_mu_, request.item);\n","              extension->OnInsert(&async_extensions_mu_, request.item);\n              break;\n")),
k('if-chain',(t,"      case ExtensionRequest::CallType::kMemoryRelease:\n        break;\n    }\n  }\n  if (!ext","      default:\n        break;\n    }\n  }\n  if (!ext")),
k('sig-always',(t,"  if (extension_requests_.size() == 1) {\n    extension_work_available_cv_.Signal();\n  }","  extension_work_available_cv_.Signal();")),
k('emplace',(t,"  ExtensionItem e_item(item);\n  ExtensionRequest request{type, e_item};\n  extension_requests_.push_back(request);","  const bool was_empty = extension_requests_.empty();\n  extension_requests_.push_back(ExtensionRequest{type, ExtensionItem(item)});")),
k('idx-loop',(t,"""        for (auto& extension : sync_extensions_) {
          extension->OnInsert(&mu_, e_item);
        }""","""        for (size_t i = 0; i < sync_extensions_.size(); ++i) {
          sync_extensions_[i]->OnInsert(&mu_, e_item);
        }""")),
]
