// No explicit instantiation is linked in: templates are instantiated implicitly
// from /repo's headers.  The float clone is dropped (VERIF_KEEP_CAST keeps it).
#undef CROCODDYL_DECLARE_EXTERN_TEMPLATE_CLASS
#undef CROCODDYL_DECLARE_EXTERN_TEMPLATE_STRUCT
#undef CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_CLASS
#undef CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_STRUCT
#define CROCODDYL_DECLARE_EXTERN_TEMPLATE_CLASS(x)
#define CROCODDYL_DECLARE_EXTERN_TEMPLATE_STRUCT(x)
#define CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_CLASS(x)
#define CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_STRUCT(x)
#ifndef VERIF_KEEP_CAST
#undef CROCODDYL_BASE_CAST
#undef CROCODDYL_DERIVED_CAST
#undef CROCODDYL_DERIVED_FLOATINGPOINT_CAST
#undef CROCODDYL_BASE_DERIVED_CAST
#undef CROCODDYL_INNER_DERIVED_CAST
#define CROCODDYL_BASE_CAST(base_class, class)                             \
  template <typename Scalar>                                               \
  std::shared_ptr<class<Scalar>> cast() const { return nullptr; }
#define CROCODDYL_DERIVED_CAST(base_class, derived_class)
#define CROCODDYL_DERIVED_FLOATINGPOINT_CAST(base_class, derived_class)
#define CROCODDYL_BASE_DERIVED_CAST(base_class, derived_class)
#define CROCODDYL_INNER_DERIVED_CAST(base_class, inner_class, derived_class)
#endif
