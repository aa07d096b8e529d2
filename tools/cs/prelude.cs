// What the client runtime uses of the .NET class library. Members without bodies are in ../csharp.py.
namespace System {
    public class Object {
        public virtual string ToString();
        public virtual bool Equals(object other);
        public static bool Equals(object a, object b);
        public virtual int GetHashCode();
        public Type GetType();
        public static bool ReferenceEquals(object a, object b);
    }

    public abstract class ValueType { }
    public abstract class Enum : ValueType { }
    public struct Void { }

    public struct Boolean : IEquatable<bool> { public bool Equals(bool other); }
    public struct Char { public static bool IsUpper(char c); public static bool IsLower(char c); public static char ToUpper(char c); public static char ToLower(char c); }
    public struct Byte { public const byte MinValue = 0; public const byte MaxValue = 255; }
    public struct SByte { public const sbyte MinValue = -128; public const sbyte MaxValue = 127; }
    public struct Int16 { public const short MinValue = -32768; public const short MaxValue = 32767; }
    public struct UInt16 { public const ushort MinValue = 0; public const ushort MaxValue = 65535; }
    public struct Int32 { public const int MinValue = -2147483648; public const int MaxValue = 2147483647; }
    public struct UInt32 { public const uint MinValue = 0; public const uint MaxValue = 4294967295; }
    public struct Int64 { public const long MinValue = -9223372036854775808; public const long MaxValue = 9223372036854775807; }
    public struct UInt64 { public const ulong MinValue = 0; public const ulong MaxValue = 18446744073709551615; }
    public struct Single { }
    public struct Double { }
    public struct Decimal { }

    public interface IEquatable<T> { bool Equals(T other); }
    public interface IComparable<T> { int CompareTo(T other); }
    public interface IDisposable { void Dispose(); }

    public sealed class String : System.Collections.Generic.IEnumerable<char> {
        public static extern string Empty { get; }
        public extern int Length { get; }
        public extern char this[int index] { get; }
        public static string Format(string format, params object[] args);
        public static string Join(string separator, params object[] values);
        public static string Join<T>(string separator, System.Collections.Generic.IEnumerable<T> values);
        public static string Concat(params object[] values);
        public static bool IsNullOrEmpty(string s);
        public string Substring(int start);
        public string Substring(int start, int length);
        public bool StartsWith(string s);
        public bool EndsWith(string s);
        public bool Contains(string s);
        public string ToLower();
        public string ToUpper();
        public string Trim();
        public char[] ToCharArray();
        public string Replace(string a, string b);
        public int IndexOf(string s);
    }

    public abstract class Array : System.Collections.IEnumerable {
        public extern int Length { get; }
        public static T[] Empty<T>();
        public static System.Collections.ObjectModel.ReadOnlyCollection<T> AsReadOnly<T>(T[] array);
        public static void Copy(Array source, Array target, int count);
        public static void Copy(Array source, int from, Array target, int to, int count);
        public static void Reverse(Array a);
        public static void Resize<T>(ref T[] a, int count);
        public static int IndexOf<T>(T[] a, T x);
        public object Clone();
        public void CopyTo(Array target, int index);
    }

    public static class Buffer {
        public static void BlockCopy(Array source, int from, Array target, int to, int count);
    }

    public static class BitConverter { public static readonly bool IsLittleEndian = true; }

    public static class Math {
        public static int Min(int a, int b); public static uint Min(uint a, uint b); public static long Min(long a, long b); public static ulong Min(ulong a, ulong b);
        public static int Max(int a, int b); public static uint Max(uint a, uint b); public static long Max(long a, long b); public static ulong Max(ulong a, ulong b);
        public static int Abs(int a); public static long Abs(long a);
    }

    public static class Convert {
        public static byte ToByte(object a); public static ushort ToUInt16(object a); public static uint ToUInt32(object a); public static ulong ToUInt64(object a);
        public static sbyte ToSByte(object a); public static short ToInt16(object a); public static int ToInt32(object a); public static long ToInt64(object a);
        public static bool ToBoolean(object a);
        public static object ChangeType(object a, Type t);
    }

    public struct Nullable<T> {
        public extern bool HasValue { get; }
        public extern T Value { get; }
        public T GetValueOrDefault();
        public T GetValueOrDefault(T other);
    }

    public static class Console {
        public static System.IO.TextWriter Error = new System.IO.TextWriter();
        public static System.IO.TextWriter Out = new System.IO.TextWriter();
        public static void WriteLine();
        public static void WriteLine(object o);
        public static void WriteLine(string format, params object[] args);
        public static void Write(object o);
        public static void Write(string format, params object[] args);
    }

    public sealed class Type {
        public extern string FullName { get; }
        public extern string Name { get; }
        public extern bool IsGenericType { get; }
        public extern bool IsValueType { get; }
        public extern bool IsEnum { get; }
        public extern bool IsInterface { get; }
        public extern Type BaseType { get; }
        public bool IsAssignableFrom(Type other);
        public bool IsInstanceOfType(object o);
        public bool IsSubclassOf(Type other);
        public System.Reflection.ConstructorInfo GetConstructor(Type[] types);
        public System.Reflection.MethodInfo GetMethod(string name);
        public System.Reflection.MethodInfo GetMethod(string name, Type[] types);
        public Type[] GetGenericArguments();
        public static Type[] EmptyTypes = new Type[0];
    }

    public static class Activator {
        public static object CreateInstance(Type type, params object[] args);
        public static T CreateInstance<T>();
    }

    public delegate TResult Func<TResult>();
    public delegate TResult Func<T1, TResult>(T1 a);
    public delegate TResult Func<T1, T2, TResult>(T1 a, T2 b);
    public delegate TResult Func<T1, T2, T3, TResult>(T1 a, T2 b, T3 c);
    public delegate TResult Func<T1, T2, T3, T4, TResult>(T1 a, T2 b, T3 c, T4 d);
    public delegate void Action();
    public delegate void Action<T1>(T1 a);
    public delegate void Action<T1, T2>(T1 a, T2 b);
    public delegate void Action<T1, T2, T3>(T1 a, T2 b, T3 c);
    public delegate void Action<T1, T2, T3, T4>(T1 a, T2 b, T3 c, T4 d);
    public delegate bool Predicate<T>(T a);
    public delegate int Comparison<T>(T a, T b);
    public delegate void EventHandler(object sender, EventArgs e);
    public delegate void EventHandler<TEventArgs>(object sender, TEventArgs e);

    public class EventArgs {
        public static readonly EventArgs Empty = new EventArgs();
    }

    public class Exception {
        private string message;
        public Exception InnerException { get; }
        public virtual string Message { get { return this.message ?? "An exception was thrown."; } }
        public string StackTrace { get { return ""; } }
        public Exception(string message = null, Exception inner = null) { this.message = message; this.InnerException = inner; }
    }

    public class SystemException : Exception { public SystemException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class ApplicationException : Exception { public ApplicationException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class NotSupportedException : SystemException { public NotSupportedException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class NotImplementedException : SystemException { public NotImplementedException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class InvalidOperationException : SystemException { public InvalidOperationException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class ObjectDisposedException : InvalidOperationException { public ObjectDisposedException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class InvalidCastException : SystemException { public InvalidCastException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class NullReferenceException : SystemException { public NullReferenceException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class IndexOutOfRangeException : SystemException { public IndexOutOfRangeException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class FormatException : SystemException { public FormatException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class MemberAccessException : SystemException { public MemberAccessException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class MissingMemberException : MemberAccessException { public MissingMemberException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class MissingMethodException : MissingMemberException { public MissingMethodException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class ArithmeticException : SystemException { public ArithmeticException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class OverflowException : ArithmeticException { public OverflowException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class DivideByZeroException : ArithmeticException { public DivideByZeroException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class StackOverflowException : SystemException { public StackOverflowException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class TypeInitializationException : SystemException { public TypeInitializationException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class ArgumentException : SystemException { public ArgumentException(string message = null, Exception inner = null) : base(message, inner) { } public ArgumentException(string message, string name) : base(message) { } }
    public class ArgumentNullException : ArgumentException { public ArgumentNullException(string name = null, string message = null) : base(message) { } }
    public class ArgumentOutOfRangeException : ArgumentException { public ArgumentOutOfRangeException(string name = null, string message = null) : base(message) { } }
}

namespace System.IO {
    public class IOException : SystemException { public IOException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class EndOfStreamException : IOException { public EndOfStreamException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class InvalidDataException : SystemException { public InvalidDataException(string message = null, Exception inner = null) : base(message, inner) { } }
    public class TextWriter {
        public void WriteLine();
        public void WriteLine(object o);
        public void WriteLine(string format, params object[] args);
        public void Write(object o);
        public void Write(string format, params object[] args);
    }
}

namespace System.Text {
    public class StringBuilder {
        public extern StringBuilder();
        public extern StringBuilder(string s);
        public extern int Length { get; }
        public StringBuilder Append(object o);
        public StringBuilder AppendLine(string s = "");
        public StringBuilder AppendFormat(string format, params object[] args);
        public StringBuilder Insert(int at, object o);
        public override string ToString();
    }

    public class Encoding {
        public static Encoding UTF8 = new Encoding(true);
        public static Encoding ASCII = new Encoding(false);
        public extern Encoding(bool utf8);
        public string GetString(byte[] bytes);
        public string GetString(byte[] bytes, int from, int count);
        public byte[] GetBytes(string s);
    }

    public class UTF8Encoding : Encoding {
        public UTF8Encoding(bool mark = false) : base(true) { }
    }
}

namespace System.Reflection {
    public class TargetInvocationException : ApplicationException { public TargetInvocationException(string message = null, Exception inner = null) : base(message, inner) { } }
    public abstract class MethodBase { public extern string Name { get; } }
    public class ConstructorInfo : MethodBase { public object Invoke(object[] args); }
    public class MethodInfo : MethodBase {
        public object Invoke(object target, object[] args);
        public MethodInfo MakeGenericMethod(params Type[] types);
        public Delegate CreateDelegate(Type type);
    }
}

namespace System {
    public abstract class Delegate { }
}

namespace System.Collections {
    public interface IEnumerable { }
}

namespace System.Collections.Generic {
    public interface IEnumerable<out T> : System.Collections.IEnumerable { IEnumerator<T> GetEnumerator(); }
    public interface IEnumerator<out T> : IDisposable { T Current { get; } bool MoveNext(); }
    public interface IReadOnlyCollection<out T> : IEnumerable<T> { int Count { get; } }
    public interface IReadOnlyList<out T> : IReadOnlyCollection<T> { T this[int index] { get; } }
    public interface IEqualityComparer<T> { bool Equals(T a, T b); int GetHashCode(T a); }
    public class EqualityComparer<T> : IEqualityComparer<T> {
        public static readonly EqualityComparer<T> Default = new EqualityComparer<T>();
        public virtual bool Equals(T a, T b) { return System.Object.Equals(a, b); }
        public virtual int GetHashCode(T a) { return a == null ? 0 : a.GetHashCode(); }
    }
    public interface IComparer<T> { int Compare(T a, T b); }

    public interface IReadOnlyDictionary<K, V> : IReadOnlyCollection<KeyValuePair<K, V>> {
        V this[K key] { get; } bool ContainsKey(K key); bool TryGetValue(K key, out V value); IEnumerable<K> Keys { get; } IEnumerable<V> Values { get; }
    }
    public interface ICollection<T> : IEnumerable<T> { int Count { get; } void Add(T item); void Clear(); bool Contains(T item); bool Remove(T item); }
    public interface IList<T> : ICollection<T> { T this[int index] { get; set; } int IndexOf(T item); void Insert(int index, T item); void RemoveAt(int index); }
    public interface IDictionary<K, V> : ICollection<KeyValuePair<K, V>> {
        V this[K key] { get; set; } bool ContainsKey(K key); void Add(K key, V value); bool Remove(K key); bool TryGetValue(K key, out V value);
        ICollection<K> Keys { get; } ICollection<V> Values { get; }
    }

    public struct KeyValuePair<K, V> {
        public K Key { get; }
        public V Value { get; }
        public KeyValuePair(K key, V value) { this.Key = key; this.Value = value; }
    }

    public class KeyNotFoundException : SystemException { public KeyNotFoundException(string message = null, Exception inner = null) : base(message, inner) { } }

    public class ListEnumerator<T> : IEnumerator<T> {
        public extern ListEnumerator(object items);
        public extern T Current { get; }
        public bool MoveNext();
        public void Dispose() { }
    }

    public class List<T> : IList<T>, IReadOnlyList<T> {
        public extern List();
        public extern List(int capacity);
        public extern List(IEnumerable<T> items);
        public extern int Count { get; }
        public extern int Capacity { get; set; }
        public extern T this[int index] { get; set; }
        public void Add(T item);
        public void AddRange(IEnumerable<T> items);
        public void Clear();
        public bool Contains(T item);
        public bool Remove(T item);
        public int RemoveAll(Predicate<T> p);
        public void RemoveAt(int index);
        public void RemoveRange(int index, int count);
        public int IndexOf(T item);
        public void Insert(int index, T item);
        public List<T> GetRange(int index, int count);
        public T[] ToArray();
        public void Reverse();
        public void ForEach(Action<T> f);
        public System.Collections.ObjectModel.ReadOnlyCollection<T> AsReadOnly();
        public IEnumerator<T> GetEnumerator();
    }

    public class HashSet<T> : ICollection<T>, IReadOnlyCollection<T> {
        public extern HashSet();
        public extern int Count { get; }
        public void Add(T item);
        public void Clear();
        public bool Contains(T item);
        public bool Remove(T item);
        public IEnumerator<T> GetEnumerator();
    }

    public class Queue<T> : IReadOnlyCollection<T> {
        public extern Queue();
        public extern Queue(IEnumerable<T> items);
        public extern int Count { get; }
        public void Enqueue(T item);
        public T Dequeue();
        public T Peek();
        public IEnumerator<T> GetEnumerator();
    }

    public class Stack<T> : IReadOnlyCollection<T> {
        public extern Stack();
        public extern int Count { get; }
        public void Push(T item);
        public T Pop();
        public T Peek();
        public IEnumerator<T> GetEnumerator();
    }

    public class Dictionary<K, V> : IDictionary<K, V>, IReadOnlyDictionary<K, V> {
        public extern Dictionary();
        public extern Dictionary(IDictionary<K, V> items);
        public extern int Count { get; }
        public extern V this[K key] { get; set; }
        public void Add(K key, V value);
        public void Add(KeyValuePair<K, V> item);
        public bool ContainsKey(K key);
        public bool Contains(KeyValuePair<K, V> item);
        public bool Remove(K key);
        public bool Remove(KeyValuePair<K, V> item);
        public bool TryGetValue(K key, out V value);
        public void Clear();
        public extern ICollection<K> Keys { get; }
        public extern ICollection<V> Values { get; }
        public IEnumerator<KeyValuePair<K, V>> GetEnumerator();
    }

    public class SortedDictionary<K, V> : Dictionary<K, V> { }
}

namespace System.Collections.ObjectModel {
    using System.Collections.Generic;

    public class ReadOnlyCollection<T> : IReadOnlyList<T>, IList<T> {
        public extern ReadOnlyCollection(IList<T> items);
        public extern int Count { get; }
        public extern T this[int index] { get; }
        protected extern IList<T> Items { get; }
        public bool Contains(T item);
        public int IndexOf(T item);
        public void CopyTo(T[] array, int index);
        public IEnumerator<T> GetEnumerator();
    }

    public class ReadOnlyDictionary<K, V> : IReadOnlyDictionary<K, V>, IDictionary<K, V> {
        public extern ReadOnlyDictionary(IDictionary<K, V> items);
        public extern int Count { get; }
        public extern V this[K key] { get; }
        protected extern IDictionary<K, V> Dictionary { get; }
        public bool ContainsKey(K key);
        public bool TryGetValue(K key, out V value);
        public extern ICollection<K> Keys { get; }
        public extern ICollection<V> Values { get; }
        public IEnumerator<KeyValuePair<K, V>> GetEnumerator();
    }
}

namespace System.Linq {
    using System.Collections.Generic;

    public static class Enumerable {
        public static IEnumerable<R> Select<T, R>(this IEnumerable<T> xs, Func<T, R> f) { foreach (var x in xs) { yield return f(x); } }
        public static IEnumerable<T> Where<T>(this IEnumerable<T> xs, Func<T, bool> f) { foreach (var x in xs) { if (f(x)) { yield return x; } } }
        public static bool Any<T>(this IEnumerable<T> xs) { foreach (var x in xs) { return true; } return false; }
        public static bool Any<T>(this IEnumerable<T> xs, Func<T, bool> f) { foreach (var x in xs) { if (f(x)) { return true; } } return false; }
        public static bool All<T>(this IEnumerable<T> xs, Func<T, bool> f) { foreach (var x in xs) { if (!f(x)) { return false; } } return true; }
        public static int Count<T>(this IEnumerable<T> xs) { var n = 0; foreach (var x in xs) { n++; } return n; }
        public static T First<T>(this IEnumerable<T> xs) { foreach (var x in xs) { return x; } throw new InvalidOperationException("Sequence contains no elements"); }
        public static T FirstOrDefault<T>(this IEnumerable<T> xs) { foreach (var x in xs) { return x; } return default(T); }
        public static T Last<T>(this IEnumerable<T> xs) { var a = xs.ToList(); if (a.Count == 0) { throw new InvalidOperationException("Sequence contains no elements"); } return a[a.Count - 1]; }
        public static T LastOrDefault<T>(this IEnumerable<T> xs) { var a = xs.ToList(); return a.Count == 0 ? default(T) : a[a.Count - 1]; }
        public static T ElementAt<T>(this IEnumerable<T> xs, int i) { return xs.ToList()[i]; }
        public static IEnumerable<T> Skip<T>(this IEnumerable<T> xs, int n) { var i = 0; foreach (var x in xs) { if (i++ >= n) { yield return x; } } }
        public static IEnumerable<T> Take<T>(this IEnumerable<T> xs, int n) { var i = 0; foreach (var x in xs) { if (i++ < n) { yield return x; } } }
        public static IEnumerable<T> Concat<T>(this IEnumerable<T> xs, IEnumerable<T> ys) { foreach (var x in xs) { yield return x; } foreach (var y in ys) { yield return y; } }
        public static IEnumerable<T> Reverse<T>(this IEnumerable<T> xs) { var a = xs.ToList(); for (var i = a.Count - 1; i >= 0; i--) { yield return a[i]; } }
        public static R Aggregate<T, R>(this IEnumerable<T> xs, R start, Func<R, T, R> f) { foreach (var x in xs) { start = f(start, x); } return start; }
        public static List<T> ToList<T>(this IEnumerable<T> xs) { return new List<T>(xs); }
        public static T[] ToArray<T>(this IEnumerable<T> xs) { return new List<T>(xs).ToArray(); }
        public static bool Contains<T>(this IEnumerable<T> xs, T x) { return xs.ToList().Contains(x); }
        public static IEnumerable<int> Range(int start, int count) { for (var i = 0; i < count; i++) { yield return start + i; } }
        public static IEnumerable<T> Empty<T>() { return new List<T>(); }
    }
}
