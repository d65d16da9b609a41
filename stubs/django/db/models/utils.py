__vp_open__ = 'django.db.models.utils'


def make_model_tuple(model):
    if isinstance(model, tuple):
        model_tuple = model
    elif isinstance(model, str):
        app_label, model_name = model.split(".")
        model_tuple = app_label, model_name.lower()
    else:
        model_tuple = model._meta.app_label, model._meta.model_name
    return model_tuple
