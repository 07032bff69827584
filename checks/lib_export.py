"""Makes t5x.export_lib importable: stand-ins for the TensorFlow Serving protos."""
import sys
import types


def protos():
  if 'tensorflow_serving' in sys.modules:
    return
  from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
  import tensorflow as tf  # registers tensor.proto
  F = descriptor_pb2.FieldDescriptorProto
  pool = descriptor_pool.Default()
  fd = descriptor_pb2.FileDescriptorProto(
      name='tensorflow_serving/apis/standin.proto', package='tensorflow.serving', syntax='proto3',
      dependency=['tensorflow/core/framework/tensor.proto'])

  def message(name, *fields):
    m = fd.message_type.add(name=name)
    for n, number, typ, kind in fields:
      m.field.add(name=n, number=number, type=typ, label=F.LABEL_OPTIONAL, type_name=kind)
    return m

  message('ModelSpec', ('name', 1, F.TYPE_STRING, None), ('signature_name', 3, F.TYPE_STRING, None))
  m = message('PredictRequest', ('model_spec', 1, F.TYPE_MESSAGE, '.tensorflow.serving.ModelSpec'))
  e = m.nested_type.add(name='InputsEntry')
  e.options.map_entry = True
  e.field.add(name='key', number=1, type=F.TYPE_STRING, label=F.LABEL_OPTIONAL)
  e.field.add(name='value', number=2, type=F.TYPE_MESSAGE, label=F.LABEL_OPTIONAL,
              type_name='.tensorflow.TensorProto')
  m.field.add(name='inputs', number=2, type=F.TYPE_MESSAGE, label=F.LABEL_REPEATED,
              type_name='.tensorflow.serving.PredictRequest.InputsEntry')
  message('PredictLog', ('request', 1, F.TYPE_MESSAGE, '.tensorflow.serving.PredictRequest'))
  message('PredictionLog', ('predict_log', 6, F.TYPE_MESSAGE, '.tensorflow.serving.PredictLog'))
  del tf
  pool.Add(fd) if hasattr(pool, 'Add') else pool.AddSerializedFile(fd.SerializeToString())
  get = lambda n: message_factory.GetMessageClass(pool.FindMessageTypeByName('tensorflow.serving.' + n))
  root = types.ModuleType('tensorflow_serving')
  apis = types.ModuleType('tensorflow_serving.apis')
  predict = types.ModuleType('tensorflow_serving.apis.predict_pb2')
  log = types.ModuleType('tensorflow_serving.apis.prediction_log_pb2')
  predict.PredictRequest, predict.ModelSpec = get('PredictRequest'), get('ModelSpec')
  log.PredictLog, log.PredictionLog = get('PredictLog'), get('PredictionLog')
  root.apis, apis.predict_pb2, apis.prediction_log_pb2 = apis, predict, log
  for m in (root, apis, predict, log):
    sys.modules[m.__name__] = m


def export_lib():
  protos()
  from t5x import export_lib as e
  return e
